// The build step that turns the witness schemas into Rust, and the root from
// which the compiler crate is analysed.
use bp3d_protoc::gen::template::{Error as TemplateError, Template};
use bp3d_protoc::gen::GeneratorRust;
use bp3d_protoc::util::SimpleImportSolver;
use bp3d_protoc::{Error, Loader, Proto, Protoc};

fn load(args: &[String]) -> Result<Protoc, Error> {
    let mut l = Loader::new();
    for p in args {
        match p.split_once('=') {
            Some((p, i)) => l.import(p, i)?,
            None => l.load(p)?,
        }
    }
    l.compile(SimpleImportSolver::new("::"))
}

fn rust(p: Protoc, out: &str) -> Result<Vec<Proto>, Error> {
    p.set_reads_messages(true).set_writes_messages(true).generate::<GeneratorRust>(out)
}

// what a build script does: two protocols, one of which uses a third
pub fn build_script() {
    bp3d_protoc::generate_rust(|l| { l.import("imported.json5", "crate::q")?; l.load("first.json5")?; l.load("second.json5") }, |p| p.set_reads_messages(true).set_writes_messages(true))
}

pub fn build_script_two_imports() {
    bp3d_protoc::generate_rust(|l| { l.import("imported.json5", "crate::q")?; l.import("imported2.json5", "crate::r")?; l.load("first.json5") }, |p| p.set_reads_messages(true).set_writes_messages(true))
}

pub fn options(v: Vec<bp3d_protoc::compiler::Protocol>, f: [bool; 6], out: &str) -> Result<Vec<Proto>, Error> {
    Protoc::new(v).set_reads_messages(f[0]).set_writes_messages(f[1]).set_use_enums(f[2]).set_use_structs(f[3]).set_use_messages(f[4]).set_use_unions(f[5]).generate::<GeneratorRust>(out)
}

// every option is first set to something else, in the other order
pub fn options_twice(v: Vec<bp3d_protoc::compiler::Protocol>, b: [bool; 6], f: [bool; 6], out: &str) -> Result<Vec<Proto>, Error> {
    Protoc::new(v).set_use_unions(b[5]).set_use_messages(b[4]).set_use_structs(b[3]).set_use_enums(b[2]).set_writes_messages(b[1]).set_reads_messages(b[0])
        .set_use_messages(f[4]).set_writes_messages(f[1]).set_use_unions(f[5]).set_reads_messages(f[0]).set_use_structs(f[3]).set_use_enums(f[2]).generate::<GeneratorRust>(out)
}

pub fn render<'a>(data: &'a [u8], vars: &[(&'a str, &'a str)], number: (&'a str, u64), path: &str, fragments: &[&str]) -> Result<String, TemplateError> {
    let mut t = Template::compile(data)?;
    for (k, v) in vars {
        t.var(k, *v);
    }
    t.var_d(number.0, number.1);
    t.render(path, fragments)
}

pub fn render_scopes<'a>(data: &'a [u8], vars: &[(&'a str, &'a str)], inner: &[(&'a str, &'a str)], number: (&'a str, u64), path: &str, fragments: &[&str], key: &'a str, last: &[&str]) -> Result<(String, String), TemplateError> {
    let mut t = Template::compile(data)?;
    for (k, v) in vars {
        t.var(k, *v);
    }
    let mut s = t.scope();
    for (k, v) in inner {
        s.var(k, *v);
    }
    s.var_d(number.0, number.1);
    s.render_to_var(path, fragments, key)?;
    let a = s.render(path, last)?;
    let b = t.render(path, last)?;
    Ok((a, b))
}

fn main() {
    // usage: gen OUT SCHEMA... ; each line of a batch file "@FILE" is one run
    let a: Vec<String> = std::env::args().collect();
    let runs: Vec<Vec<String>> = match a[1].strip_prefix('@') {
        Some(f) => std::fs::read_to_string(f).unwrap().lines().map(|l| l.split('\t').map(String::from).collect()).collect(),
        None => vec![a[1..].to_vec()],
    };
    for r in runs {
        let r2 = r.clone();
        let res = std::panic::catch_unwind(move || match load(&r2[1..]) {
            Err(e) => println!("REJECT\t{}\t{}", r2[0], e),
            Ok(p) => match rust(p, &r2[0]) {
                Err(e) => println!("FAIL\t{}\t{}", r2[0], e),
                Ok(v) => for p in v { println!("OK\t{}\t{}\t{}", r2[0], p.name, p.path.display()) },
            },
        });
        if res.is_err() {
            println!("PANIC\t{}", r[0]);
        }
    }
}
