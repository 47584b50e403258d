use fleece_search::*;
#[path = "../fam_encode.rs"] mod fam_encode;
#[path = "../fam_bytes.rs"] mod fam_bytes;
#[path = "../fam_keys.rs"] mod fam_keys;
#[path = "../fam_mutable.rs"] mod fam_mutable;
#[path = "../fam_serde.rs"] mod fam_serde;
#[path = "../fam_scope.rs"] mod fam_scope;
fn main() {
    let mut f: Vec<Family> = vec![];
    f.extend(fam_encode::families());
    f.extend(fam_bytes::families());
    f.extend(fam_keys::families());
    f.extend(fam_mutable::families());
    f.extend(fam_serde::families());
    f.extend(fam_scope::families());
    fleece_search::main(&f);
}
