mod engine;
mod lines;
mod resolvers;
mod selections;
mod system;
mod tokens;

use crate::runner::{self, Cfg};

macro_rules! table {
    ($($p:path),* $(,)?) => {
        pub fn run(id: &str, cfg: &Cfg) -> i32 {
            $( if id == <$p as runner::Prop>::ID { return runner::run($p, cfg); } )*
            eprintln!("unknown property {id}");
            3
        }
        pub fn guided(id: &str, cfg: &Cfg) -> i32 {
            $( if id == <$p as runner::Prop>::ID { return crate::guided::run($p, cfg); } )*
            3
        }
        pub fn guided_worker(id: &str, cfg: &Cfg, job: &crate::guided::Job) -> i32 {
            $( if id == <$p as runner::Prop>::ID { return crate::guided::worker($p, cfg, job); } )*
            3
        }
        pub fn replay(id: &str, case: serde_json::Value) -> i32 {
            $( if id == <$p as runner::Prop>::ID { return runner::replay($p, case); } )*
            eprintln!("unknown property {id}");
            3
        }
    };
}
table!(
    tokens::C01, tokens::C02, tokens::C03, lines::C04, lines::C05, lines::C06, engine::C07, engine::C08, engine::C09, engine::C10,
    engine::C11, selections::C12, engine::C13, selections::C14, lines::C15, resolvers::C16, resolvers::C17, resolvers::C18,
    resolvers::C19, resolvers::C20, resolvers::C21, resolvers::C22, resolvers::C23, lines::C24, system::C25, system::C26, system::C27, system::C28,
);

/// compares a real result with the expected one
pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, real: &T, want: &T) -> Result<(), String> {
    if real == want {
        Ok(())
    } else {
        Err(format!("{what}\n  got:      {real:?}\n  expected: {want:?}"))
    }
}
/// the same for long lists: points at the first difference
pub fn same_list<T: PartialEq + std::fmt::Debug>(what: &str, real: &[T], want: &[T]) -> Result<(), String> {
    if real == want {
        return Ok(());
    }
    let k = real.iter().zip(want).take_while(|(a, b)| a == b).count();
    Err(format!(
        "{what}: {} entries, expected {}; first difference at {k}\n  got:      {:?}\n  expected: {:?}",
        real.len(),
        want.len(),
        real.get(k),
        want.get(k)
    ))
}
