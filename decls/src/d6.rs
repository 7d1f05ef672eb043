include!(concat!(env!("MC_DECLS"), "/d6.rs"));
