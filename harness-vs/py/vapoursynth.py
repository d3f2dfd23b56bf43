"""What a script needs of VapourSynth to name a source and set the output."""
import json


class _Clip:
    def __init__(self, **k):
        self.k = k

    def set_output(self, index=0):
        print(json.dumps({"index": index, **self.k}))


class Error(Exception):
    pass


# What the plugins' functions take; other names are an error, as in VapourSynth.
_LSMAS = """stream_index threads cache cachefile seek_mode seek_threshold dr fpsnum fpsden
    variable format decoder prefer_hw repeat dominance ff_loglevel cachedir ff_options
    rap_verification indexingpr""".split()
_BS = """track variableformat fpsnum fpsden rff threads seekpreroll enable_drefs
    use_absolute_path cachemode cachepath cachesize hwdevice extrahwframes timecodes
    start_number viewid showprogress maxdecoders hwfallback exporttimestamps""".split()


class _Source:
    def __init__(self, name):
        self.name = name

    def __call__(self, source, **options):
        unknown = set(options) - set(_BS if self.name.startswith("bs.") else _LSMAS)
        if unknown:
            raise Error(f"{self.name}: no argument named {unknown}")
        return _Clip(function=self.name, source=source)


class _Space:
    def __init__(self, space, names):
        for n in names:
            setattr(self, n, _Source(space + "." + n))


class _Core:
    lsmas = _Space("lsmas", ["LWLibavSource", "LibavSMASHSource"])
    bs = _Space("bs", ["VideoSource"])


core = _Core()


def get_core():
    return core
