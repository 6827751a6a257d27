// included at the end of src/polodb_core/vm/vm_skip.rs under --cfg polodb_verif
