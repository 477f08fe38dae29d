fn main() { sym::replay_main(h_syntax::ENTRIES) }
