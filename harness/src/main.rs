#[cfg(feature = "ext")]
mod builders;
#[cfg(feature = "ext")]
mod ctor;
mod taggen;
#[cfg(feature = "ext")]
mod secret;
#[cfg(feature = "ext")]
mod seq;
mod session;
mod frag;
mod gram;
mod gramrun;
mod msg;
mod util;
use std::panic;
fn arg(name: &str, dflt: &str) -> String {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == &format!("--{name}")).map(|i| a[i + 1].clone()).unwrap_or(dflt.into())
}
fn main() {
    panic::set_hook(Box::new(|_| {}));
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let prop = arg("prop", "");
    let seed: u64 = arg("seed", "1").parse().unwrap();
    let scale: usize = arg("scale", "1").parse().unwrap();
    let dir = arg("out", "");
    let shards: usize = arg("shards", "8").parse().unwrap();
    let v = match cmd.as_str() {
        "frag" => frag::main(&prop, seed, scale, &dir, shards),
        #[cfg(feature = "ext")]
        "build" => builders::main(&prop, seed, scale, &dir, shards),
        #[cfg(feature = "ext")]
        "ctor" => ctor::main(&prop, seed, scale, &dir, shards),
        "taggen" => taggen::main(&prop, seed, scale, &dir, shards),
        #[cfg(feature = "ext")]
        "secret" => secret::main(&prop, seed, scale, &dir, shards),
        "session" => session::main(&arg("grammar", ""), seed, scale, &dir, shards),
        #[cfg(feature = "ext")]
        "seq" => seq::main(&prop, seed, scale, &dir, shards),
        "gram" => gramrun::main(gramrun::Params {
            mode: arg("mode", "dec"),
            kinds: arg("kinds", "cmd,auth,idle,gre,resp").split(',').map(|s| s.to_string()).collect(),
            seed,
            scale,
            dir,
            shards,
            grammar: arg("grammar", ""),
            prop,
        }),
        _ => {
            eprintln!("unknown command");
            std::process::exit(2)
        }
    };
    println!("{v}");
}
