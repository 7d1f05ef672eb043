include!(concat!(env!("MC_DECLS"), "/d1.rs"));
