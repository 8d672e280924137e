fn main() {
    println!("cargo:rerun-if-env-changed=HV_ZOO");
}
