fn main() { sym::replay_main(h_ide::ENTRIES) }
