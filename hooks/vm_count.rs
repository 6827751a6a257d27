// included at the end of src/polodb_core/vm/vm_count.rs under --cfg polodb_verif
