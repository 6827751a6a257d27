// included at the end of src/polodb_core/vm/vm_limit.rs under --cfg polodb_verif
