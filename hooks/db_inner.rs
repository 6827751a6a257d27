// included at the end of src/polodb_core/db/db_inner.rs under --cfg polodb_verif
