//@include prelude.vrs
verus! {
//@include image_edit.inc
} // verus!
fn main() {}
