include!(concat!(env!("MC_GEN"), "/g2.rs"));
