use logicaffeine_compile::compile::*;
use logicaffeine_compile::optimization::Tier;
use logicaffeine_jit::ForgeTier;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Engine { Tree, Vm, T0, T1, T2, T3, Jit, JitT3 }
pub const ALL: &[Engine] = &[Engine::Tree, Engine::Vm, Engine::T0, Engine::T1, Engine::T2, Engine::T3, Engine::Jit, Engine::JitT3];

pub fn run(e: Engine, src: &str) -> (String, Option<String>) {
    let o = match e {
        Engine::Tree => tw_outcome(src),
        Engine::Vm => vm_outcome(src),
        Engine::T0 => vm_outcome_tiered(src, &[], Tier::T0, None),
        Engine::T1 => vm_outcome_tiered(src, &[], Tier::T1, None),
        Engine::T2 => vm_outcome_tiered(src, &[], Tier::T2, None),
        Engine::T3 => vm_outcome_tiered(src, &[], Tier::T3, None),
        Engine::Jit => vm_outcome_with_args(src, &[], Some(&ForgeTier::new())),
        Engine::JitT3 => vm_outcome_tiered(src, &[], Tier::T3, Some(&ForgeTier::new())),
    };
    (o.output, o.error)
}
