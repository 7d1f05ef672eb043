include!(concat!(env!("MC_GEN"), "/g0.rs"));
