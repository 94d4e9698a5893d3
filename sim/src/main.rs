mod alloc;
mod choice;
mod comb;
mod gen;
mod model;
mod ops;
mod props;
mod readers;
mod runner;
mod sim;
mod snap;
mod vis;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", prop, rest @ ..] => runner::check(prop, rest),
        ["worker", prop, rest @ ..] => runner::big_stack(prop, rest, runner::worker),
        ["exec", prop, rest @ ..] => runner::big_stack(prop, rest, runner::exec),
        ["replay", file] => runner::replay(file),
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: dersim check <PROP> [--tier quick|thorough] [--seed N] | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
