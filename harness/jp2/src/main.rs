//! Native replay of a solver counterexample: `replay FILE` runs one harness body on the
//! recorded values against the real code. Exit: 0 held, 77 an assumption is not met by the
//! values, anything else (panic, signal) the property is broken by this input.
#![allow(unexpected_cfgs)]
fn main() {
    #[cfg(not(kani))]
    {
        let path = std::env::args().nth(1).expect("replay file");
        let text = std::fs::read_to_string(path).expect("readable replay file");
        let mut name = String::new();
        let mut vals = Vec::new();
        for line in text.lines() {
            if let Some(n) = line.strip_prefix("harness ") {
                name = n.trim().to_string();
            } else if let Some(h) = line.strip_prefix("val") {
                let h = h.trim();
                vals.push(
                    (0..h.len() / 2)
                        .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap())
                        .collect::<Vec<u8>>(),
                );
            }
        }
        vh::run(&name, vals);
    }
}
#[cfg(not(kani))]
mod vh {
    include!(concat!(env!("LAYA_VERIF_DIR"), "/replay.rs"));
}
