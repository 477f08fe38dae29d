fn main() { sym::replay_main(h_stdext::ENTRIES) }
