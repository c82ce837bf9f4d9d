//! Run one Ruby program on the interpreter: `mrun [--no-jit] FILE|-e CODE`.
use monoruby::*;
fn main() {
    let mut no_jit = false;
    let mut code = vec![];
    let mut path = std::path::PathBuf::from("x.rb");
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--no-jit" => no_jit = true,
            "-e" => code = it.next().unwrap().into_bytes(),
            f => {
                code = std::fs::read(f).unwrap();
                path = f.into();
            }
        }
    }
    let mut g = Globals::new(1, no_jit, true);
    match g.run(code, &path) {
        Ok(v) => println!("=> {}", v.inspect(&g.store)),
        Err(e) => {
            e.show_error_message_and_all_loc(&g.store);
            std::process::exit(1)
        }
    }
}
