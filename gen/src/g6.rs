include!(concat!(env!("MC_GEN"), "/g6.rs"));
