mod doc;
mod rec;
mod vs;
mod h_basic;
mod h_std;
mod h_time;
mod h_geom;
mod h_tf;
mod h_layer;
mod h_shape;
mod h_any;
mod h_large;
mod h_lone;
mod h_more;
mod h_keep;
mod h_model;
mod h_odd;
mod h_move;
mod h_schema;
#[cfg(feature = "vello")]
mod h_vello;

use std::io::BufRead;

unsafe extern "C" {
    fn shim_reset(observe: i32);
    fn shim_end();
    fn shim_input(name: *const u8, len: usize, v: f64);
}
type Entry = (&'static str, extern "C" fn());

#[macro_export]
macro_rules! entries {
    ($($name:ident => $body:path;)*) => {
        $(
            #[unsafe(no_mangle)]
            #[inline(never)]
            pub extern "C" fn $name() { $body() }
        )*
        pub static ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}

fn table() -> Vec<Entry> {
    #[cfg(feature = "vello")]
    let vello = h_vello::ENTRIES;
    #[cfg(not(feature = "vello"))]
    let vello: &[Entry] = &[];
    [vello, h_basic::ENTRIES, h_std::ENTRIES, h_time::ENTRIES, h_geom::ENTRIES, h_tf::ENTRIES, h_layer::ENTRIES, h_shape::ENTRIES, h_any::ENTRIES, h_large::ENTRIES, h_lone::ENTRIES, h_more::ENTRIES, h_schema::ENTRIES, h_model::ENTRIES, h_keep::ENTRIES, h_odd::ENTRIES, h_move::ENTRIES].concat()
}

fn load(line: &str) {
    if let Some((k, v)) = line.rsplit_once(' ') {
        if let Ok(v) = v.parse::<f64>() {
            unsafe { shim_input(k.as_ptr(), k.len(), v) }
        }
    }
}
/// harness ENTRY INPUTS      run one entry on the inputs in a file ("name value" lines)
/// harness batch             requests on stdin: "run ENTRY N" and N input lines; answers "end"
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t = table();
    let find = |n: &str| t.iter().find(|e| e.0 == n).map(|e| e.1).unwrap_or_else(|| {
        eprintln!("no entry {n}");
        std::process::exit(9)
    });
    if a.len() >= 2 && a[1] == "list" {
        for e in &t {
            println!("{}", e.0);
        }
        return;
    }
    if a.len() >= 2 && a[1] == "batch" {
        let mut it = std::io::stdin().lock().lines().map(|l| l.unwrap());
        while let Some(l) = it.next() {
            let p: Vec<&str> = l.split(' ').collect();
            if p.len() == 3 && p[0] == "run" {
                unsafe { shim_reset(1) }
                for _ in 0..p[2].parse::<usize>().unwrap() {
                    load(&it.next().unwrap());
                }
                find(p[1])();
                unsafe { shim_end() }
            }
        }
        return;
    }
    let f = find(&a[1]);
    unsafe { shim_reset(0) }
    if let Some(p) = a.get(2) {
        for l in std::fs::read_to_string(p).unwrap().lines() {
            load(l);
        }
    }
    f();
    println!("OK");
}
