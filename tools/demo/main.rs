//! Demonstration: what `data.json` says must hold of the crates this is built with.
use ethereum_types::U256;
use evm_arithmetization::{GenerationInputs, SegmentDataIterator};
use plonky2::field::goldilocks_field::GoldilocksField as F;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn execute(i: &GenerationInputs, log: Option<usize>) -> Result<usize, String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut n = 0;
        for s in SegmentDataIterator::<F>::new(i, log) {
            s.map_err(|e| e.to_string().chars().take(400).collect::<String>())?;
            n += 1;
        }
        Ok(n)
    }));
    r.unwrap_or_else(|_| Err("panic".into()))
}
type Advice = (String, u64, Option<U256>, Vec<(usize, usize, usize, U256)>);
#[derive(serde::Deserialize, Default)]
struct Script {
    advice: Vec<Advice>,
    memory: Vec<(usize, Vec<Option<U256>>)>,
}
#[cfg(hooks)]
mod liar {
    use super::*;
    use evm_arithmetization::verif_hooks::{Hook, Poke};
    pub struct Liar(pub Script, pub std::collections::HashMap<String, u64>, pub u64);
    impl Hook for Liar {
        fn advice(&mut self, name: &str, honest: Option<U256>, _: &[U256], _: &dyn Fn(usize, usize, usize) -> U256, pokes: &mut Vec<Poke>) -> Option<U256> {
            let k = self.1.entry(name.to_string()).or_default();
            *k += 1;
            for (n, at, v, p) in &self.0.advice {
                if n == name && *at == *k - 1 {
                    pokes.extend(p.iter().copied());
                    return *v;
                }
            }
            honest
        }
        fn initial_memory(&mut self, segment: usize, content: &mut Vec<Option<U256>>) {
            if content.is_empty() {
                return;
            }
            for (s, c) in &self.0.memory {
                if *s == segment {
                    *content = c.clone();
                }
            }
        }
        fn step(&mut self, _: usize, _: bool, _: usize, _: U256) -> anyhow::Result<()> {
            self.2 += 1;
            anyhow::ensure!(self.2 < 20_000_000, "endless execution");
            Ok(())
        }
    }
}
fn main() {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap()).unwrap();
    let get = |k: &str| v[k].clone();
    let ok = match v["kind"].as_str().unwrap() {
        // a valid block: the decoder takes it and every batch executes to its claims
        "block" => {
            let out = catch_unwind(|| trace_decoder::entrypoint(
                serde_json::from_value(get("trace")).unwrap(),
                serde_json::from_value(get("other")).unwrap(),
                get("batch").as_u64().unwrap() as usize,
                &mut trace_decoder::observer::DummyObserver::new(),
                trace_decoder::WireDisposition::Type1,
            ));
            match out {
                Ok(Ok(out)) => out.iter().enumerate().all(|(k, i)| match execute(i, None) {
                    Ok(_) => true,
                    Err(e) => {
                        println!("batch {k} of a valid block is refused: {e}");
                        false
                    }
                }),
                r => {
                    println!("a valid block is refused: {:?}", r.map(|r| r.err()).ok());
                    false
                }
            }
        }
        // a valid batch: it can be cut into segments of this length
        "cut" => match execute(&serde_json::from_value(get("inputs")).unwrap(), Some(get("log").as_u64().unwrap() as usize)) {
            Ok(n) => n > 0,
            Err(e) => {
                println!("a valid batch is refused when cut: {e}");
                false
            }
        },
        // a false claim, and the lies that support it: it is refused
        "lie" => {
            let i: GenerationInputs = serde_json::from_value(get("inputs")).unwrap();
            let s: Script = serde_json::from_value(get("script")).unwrap();
            #[cfg(hooks)]
            evm_arithmetization::verif_hooks::set(Some(Box::new(liar::Liar(s, Default::default(), 0))));
            #[cfg(not(hooks))]
            assert!(s.advice.is_empty() && s.memory.is_empty());
            match execute(&i, None) {
                Ok(_) => {
                    println!("a false claim is accepted");
                    false
                }
                Err(e) => {
                    println!("refused: {}", e.split("failed with error").last().unwrap().chars().take(200).collect::<String>());
                    true
                }
            }
        }
        _ => unreachable!(),
    };
    println!("{}", if ok { "holds" } else { "broken" });
    std::process::exit(if ok { 0 } else { 1 });
}
