// included at the end of src/polodb_core/vm/operators/abs_operator.rs under --cfg polodb_verif
