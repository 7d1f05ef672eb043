include!(concat!(env!("MC_GEN"), "/g1.rs"));
