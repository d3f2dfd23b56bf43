mod ff;
#[macro_use]
mod pic;
mod metric;
mod mock;
mod props;
mod refm;
mod run;
mod y4m;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(String::as_str) {
        Some("dump-stdin") => props::decode::dump_stdin(args[1] == "wide"),
        Some("encode") => props::video::encode_stdin(&args[1]),
        Some(how @ ("read-damaged" | "drain-damaged")) => {
            std::process::exit(props::video::read_damaged(&args[1], how == "drain-damaged"))
        }
        _ => run::drive(&args, props::find, || {
            let _ = std::fs::remove_dir_all(y4m::scratch_root());
        }),
    }
}
