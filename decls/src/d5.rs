include!(concat!(env!("MC_DECLS"), "/d5.rs"));
