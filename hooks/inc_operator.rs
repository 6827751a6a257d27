// included at the end of src/polodb_core/vm/update_operators/inc_operator.rs under --cfg polodb_verif
