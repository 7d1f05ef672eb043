include!(concat!(env!("MC_GEN"), "/g7.rs"));
