include!(concat!(env!("MC_GEN"), "/g4.rs"));
