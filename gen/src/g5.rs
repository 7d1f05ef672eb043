include!(concat!(env!("MC_GEN"), "/g5.rs"));
