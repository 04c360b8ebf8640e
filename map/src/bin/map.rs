use kit::{Arm, Suite};
use mapcheck::{conc, nodes, reenter, seq};
use mapcheck::val::{CVal, Val};
use masstree::{MassTree, MassTree24Inline};

#[global_allocator]
static A: kit::alloc::CheckedAlloc = kit::alloc::CheckedAlloc;

type TA = MassTree<Val>;
type TI = MassTree24Inline<CVal>;

fn arm(name: &'static str, quick: u64, thorough: u64, f: kit::runner::CaseFn) -> Arm {
    Arm { name, quick, thorough, f }
}

fn plus(mut a: Vec<Arm>, b: Vec<Arm>) -> Vec<Arm> {
    a.extend(b);
    a
}

fn conc_arms<const F: u8>() -> Vec<Arm> {
    vec![
        arm("duel_arc", 26_000, 500_000, conc::case::<TA, F, 0>),
        arm("duel_inline", 14_000, 300_000, conc::case::<TI, F, 0>),
        arm("small_arc", 24_000, 300_000, conc::case::<TA, F, 1>),
        arm("small_inline", 14_000, 200_000, conc::case::<TI, F, 1>),
        arm("chase_arc", 3_000, 80_000, conc::case::<TA, F, 4>),
        arm("chase_inline", 2_000, 50_000, conc::case::<TI, F, 4>),
        arm("grow_arc", 6_000, 100_000, conc::case::<TA, F, 2>),
        arm("grow_inline", 3_000, 60_000, conc::case::<TI, F, 2>),
        arm("near_arc", 4_000, 80_000, conc::case::<TA, F, 5>),
        arm("near_inline", 2_000, 50_000, conc::case::<TI, F, 5>),
        arm("storm_arc", 3_000, 80_000, conc::case::<TA, F, 6>),
        arm("storm_inline", 2_000, 50_000, conc::case::<TI, F, 6>),
        arm("held_arc", 300, 4000, conc::case::<TA, F, 3>),
        arm("held_inline", 150, 2000, conc::case::<TI, F, 3>),
    ]
}

macro_rules! name {
    ($s:literal) => {
        if cfg!(feature = "traced") { concat!("traced_", $s) } else { concat!("plain_", $s) }
    };
}

/// The arms of C25, the same in every build; the driver runs them in each.
fn build_arms() -> Vec<Arm> {
    let n = |q: u64, t: u64| if cfg!(feature = "traced") { (q / 16, t / 16) } else { (q, t) };
    let a = |name, (q, t): (u64, u64), f| arm(name, q, t, f);
    vec![
        a(name!("model_arc"), n(40_000, 1_600_000), seq::model::<TA>),
        a(name!("model_inline"), n(30_000, 1_200_000), seq::model::<TI>),
        a(name!("large_arc"), n(120, 3000), seq::large::<TA>),
        a(name!("identity_arc"), n(30_000, 1_600_000), seq::identity::<TA>),
        a(name!("limits_inline"), n(40_000, 2_400_000), seq::limits::<TI>),
        a(name!("variants"), n(16_000, 800_000), seq::variants),
        a(name!("nodes_arc"), n(16_000, 300_000), seq::nodes::<TA>),
        a(name!("life_arc"), n(20_000, 400_000), seq::lifecycle::<TA>),
        a(name!("refs_inline"), n(20_000, 400_000), seq::refs::<TI>),
        a(name!("duel_arc"), n(10_000, 200_000), conc::case::<TA, { conc::LINEAR }, 0>),
        a(name!("small_inline"), n(8_000, 120_000), conc::case::<TI, { conc::LINEAR }, 1>),
        a(name!("chase_arc"), n(1_600, 30_000), conc::case::<TA, { conc::FINAL }, 4>),
        a(name!("grow_inline"), n(2_000, 40_000), conc::case::<TI, { conc::SHAPE }, 2>),
        a(name!("near_inline"), n(1_200, 25_000), conc::case::<TI, { conc::SHAPE }, 5>),
        a(name!("storm_arc"), n(400, 10_000), conc::case::<TA, { conc::FINAL }, 6>),
        a(name!("held_arc"), n(100, 1500), conc::case::<TA, { conc::PROGRESS }, 3>),
    ]
}

/// The diagnostics exist in a tracing build only.
#[cfg(feature = "traced")]
fn diag_suite() -> Vec<Suite> {
    use mapcheck::diag;
    vec![Suite {
        id: "C26",
        rule: "at least one split (shared arms: at least one preemption inside the run and one insert; summary: more than two counters above zero; log: at least one event passes the filter)",
        arms: vec![
            arm("counters_arc", 16_000, 800_000, diag::counters::<TA>),
            arm("counters_inline", 12_000, 600_000, diag::counters::<TI>),
            arm("shared_duel_arc", 4000, 40_000, diag::shared::<TA, 0>),
            arm("shared_small_inline", 2500, 20_000, diag::shared::<TI, 1>),
            arm("shared_grow_arc", 400, 8_000, diag::shared::<TA, 2>),
            arm("shared_near_arc", 400, 8_000, diag::shared::<TA, 5>),
            arm("shared_storm_arc", 200, 4_000, diag::shared::<TA, 6>),
            arm("summary", 200_000, 8_000_000, diag::summary),
            arm("log", 3000, 30_000, diag::log),
        ],
        assumptions: vec![],
        pin: true,
        workers: 8,
    }]
}

#[cfg(not(feature = "traced"))]
fn diag_suite() -> Vec<Suite> {
    vec![]
}

fn suites() -> Vec<Suite> {
    mapcheck::init();
    plus_suites(diag_suite(), vec![
        Suite {
            id: "C25",
            rule: "as for the arm of the same name in the other checks: the map exceeds one leaf or holds long keys, keys share slices, a preemption took place inside the run",
            arms: build_arms(),
            assumptions: vec![],
            pin: true,
            workers: 8,
        },
        Suite {
            id: "C01",
            rule: "the final map exceeds one leaf, or has more than 3 keys with at least one longer than 8 bytes (large arms: more than 360 keys)",
            arms: vec![
                arm("model_arc", 100_000, 6_000_000, seq::model::<TA>),
                arm("model_inline", 60_000, 4_000_000, seq::model::<TI>),
                arm("large_arc", 250, 10_000, seq::large::<TA>),
                arm("large_inline", 150, 6000, seq::large::<TI>),
            ],
            assumptions: vec![],
            pin: true,
            workers: 8,
        },
        Suite {
            id: "C02",
            rule: "at least two inserted keys share their first 8 zero-padded bytes and more than 2 keys are inserted",
            arms: vec![
                arm("identity_arc", 150_000, 10_000_000, seq::identity::<TA>),
                arm("identity_inline", 100_000, 5_200_000, seq::identity::<TI>),
            ],
            assumptions: vec![],
            pin: true,
            workers: 8,
        },
        Suite {
            id: "C03",
            rule: "more than 4 distinct keys and at least one update of an existing key",
            arms: vec![
                arm("counting_arc", 260_000, 19_000_000, seq::counting::<TA>),
                arm("counting_inline", 260_000, 14_000_000, seq::counting::<TI>),
            ],
            assumptions: vec![],
            pin: true,
            workers: 8,
        },
        Suite {
            id: "C04",
            rule: "at least one update of an existing key and more than 2 keys",
            arms: vec![
                arm("variants", 120_000, 8_700_000, seq::variants),
                arm("value_types", 62_000, 3_500_000, seq::value_types),
            ],
            assumptions: vec![],
            pin: true,
            workers: 8,
        },
        Suite {
            id: "C05",
            rule: "an over-long key was tried or a key of at least 248 bytes was stored",
            arms: vec![
                arm("limits_arc", 340_000, 22_000_000, seq::limits::<TA>),
                arm("limits_inline", 340_000, 22_000_000, seq::limits::<TI>),
            ],
            assumptions: vec![],
            pin: true,
            workers: 8,
        },
        Suite {
            id: "C06",
            rule: "at least one preemption took place inside the run and at least one insert ran",
            arms: conc_arms::<{ conc::LINEAR }>(),
            assumptions: vec![],
            pin: true,
            workers: 8,
        },
        Suite {
            id: "C07",
            rule: "at least one preemption took place inside the run and at least one insert ran",
            arms: conc_arms::<{ conc::FINAL }>(),
            assumptions: vec![],
            pin: true,
            workers: 8,
        },
        Suite {
            id: "C08",
            rule: "more than 100 keys",
            arms: vec![
                arm("cost_arc", 62_000, 4_000_000, seq::cost::<TA>),
                arm("cost_inline", 62_000, 4_000_000, seq::cost::<TI>),
            ],
            assumptions: vec![],
            pin: true,
            workers: 8,
        },
        Suite {
            id: "C09",
            rule: "at least one preemption took place inside the run and at least one insert ran",
            arms: plus(conc_arms::<{ conc::PROGRESS }>(), vec![arm("reenter", 20_000, 400_000, reenter::case)]),
            assumptions: vec![],
            pin: true,
            workers: 8,
        },
        Suite {
            id: "C10",
            rule: "a value was replaced while a guarded reference to it was held",
            arms: plus(conc_arms::<{ conc::REFS }>(), vec![
                arm("refs_arc", 80_000, 1_000_000, seq::refs::<TA>),
                arm("refs_inline", 80_000, 1_000_000, seq::refs::<TI>),
                arm("foreign_arc", 20_000, 300_000, seq::foreign::<TA>),
                arm("foreign_inline", 10_000, 150_000, seq::foreign::<TI>),
            ]),
            assumptions: vec![],
            pin: true,
            workers: 8,
        },
        Suite {
            id: "C11",
            rule: "at least one value was replaced and the map holds more than one key",
            arms: plus(conc_arms::<{ conc::LIFE }>(), vec![
                arm("life_arc", 120_000, 1_500_000, seq::lifecycle::<TA>),
                arm("life_inline", 60_000, 800_000, seq::lifecycle::<TI>),
                arm("reenter", 40_000, 600_000, reenter::case),
            ]),
            assumptions: vec![],
            pin: true,
            workers: 8,
        },
        Suite {
            id: "C12",
            rule: "more than one layer or at least one inner node (concurrent arms: at least one preemption inside the run and at least one insert)",
            arms: plus(vec![
                arm("nodes_arc", 60_000, 800_000, seq::nodes::<TA>),
                arm("nodes_inline", 40_000, 500_000, seq::nodes::<TI>),
            ], conc_arms::<{ conc::SHAPE }>()),
            assumptions: vec!["nobody changes the map while it is walked"],
            pin: true,
            workers: 8,
        },
        Suite {
            id: "C13",
            rule: "more than 24 keys and at least one update",
            arms: vec![
                arm("memory_arc", 130_000, 8_100_000, seq::memory::<TA>),
                arm("memory_inline", 130_000, 8_100_000, seq::memory::<TI>),
            ],
            assumptions: vec![],
            pin: true,
            workers: 8,
        },
        Suite {
            id: "C27",
            rule: "the map has more than one node (shared arms: at least one preemption inside the run and one insert; own: a node was retired and a value stored)",
            arms: vec![
                arm("arena_arc", 40_000, 800_000, nodes::solo::<nodes::ArenaArc>),
                arm("arena_inline", 24_000, 600_000, nodes::solo::<nodes::ArenaInline>),
                arm("seize_arc", 20_000, 600_000, nodes::solo::<nodes::SeizeArc>),
                arm("seize_inline", 16_000, 400_000, nodes::solo::<nodes::SeizeInline>),
                arm("shared_duel_arena_arc", 14_000, 100_000, nodes::shared::<nodes::ArenaArc, 0>),
                arm("shared_small_seize_arc", 10_000, 80_000, nodes::shared::<nodes::SeizeArc, 1>),
                arm("shared_small_arena_inline", 8000, 60_000, nodes::shared::<nodes::ArenaInline, 1>),
                arm("shared_grow_arena_arc", 3000, 20_000, nodes::shared::<nodes::ArenaArc, 2>),
                arm("shared_storm_arena_inline", 500, 8_000, nodes::shared::<nodes::ArenaInline, 6>),
                arm("shared_near_seize_arc", 1500, 15_000, nodes::shared::<nodes::SeizeArc, 5>),
                arm("shared_chase_seize_inline", 1500, 10_000, nodes::shared::<nodes::SeizeInline, 4>),
                arm("own", 200_000, 8_000_000, nodes::own),
            ],
            assumptions: vec![],
            pin: true,
            workers: 8,
        },
    ])
}

fn plus_suites(mut a: Vec<Suite>, b: Vec<Suite>) -> Vec<Suite> {
    a.extend(b);
    a
}

fn main() {
    #[cfg(feature = "traced")]
    if std::env::var("MT_LOG_CHILD").is_ok() {
        return mapcheck::diag::child();
    }
    kit::runner::main(suites)
}
