include!(concat!(env!("MC_DECLS"), "/d2.rs"));
