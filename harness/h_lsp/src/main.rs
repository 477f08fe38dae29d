fn main() { sym::replay_main(h_lsp::ENTRIES) }
