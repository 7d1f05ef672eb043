include!(concat!(env!("MC_DECLS"), "/d0.rs"));
