include!(concat!(env!("MC_GEN"), "/g3.rs"));
