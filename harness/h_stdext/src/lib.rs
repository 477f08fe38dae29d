use stdext::line_endings::LineEndings;

/// Reference: the text with the `\r` of every `\r\n` dropped, byte by byte.
fn drop_cr_of_crlf(b: &[u8]) -> (Vec<u8>, bool) {
    let mut out = Vec::with_capacity(b.len());
    let mut any = false;
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\r' && i + 1 < b.len() && b[i + 1] == b'\n' {
            any = true;
        } else {
            out.push(b[i]);
        }
        i += 1;
    }
    (out, any)
}

sym::harnesses! {
    fn C01() {
        let n = sym::choose(sym::param("len", 6), "len") as usize;
        let text = sym::utf8(n, "c");
        let (want, any) = drop_cr_of_crlf(text.as_bytes());
        let (got, le) = LineEndings::normalize(text);
        sym::observe(got.as_bytes());
        sym::check(got.as_bytes() == &want[..], "normalized text");
        sym::check((le == LineEndings::Dos) == any, "line-ending flag");
        if any { sym::cover("crlf"); } else { sym::cover("no crlf"); }
    }
    // text with one line-ending convention survives load-and-save
    fn C02() {
        let n = sym::choose(sym::param("len", 6), "len") as usize;
        let text = sym::utf8(n, "c");
        let b = text.as_bytes();
        // one convention throughout: either every newline is CRLF, or no CRLF occurs
        let mut crlf = 0;
        let mut lone = 0;
        for i in 0..n {
            if b[i] == b'\n' {
                if i > 0 && b[i - 1] == b'\r' { crlf += 1; } else { lone += 1; }
            }
        }
        sym::assume(crlf == 0 || lone == 0);
        let orig = b.to_vec();
        let (norm, le) = LineEndings::normalize(text);
        let back = le.map(norm);
        sym::observe(back.as_bytes());
        sym::check(back.as_bytes() == &orig[..], "text written back equals the text loaded");
        if crlf > 0 { sym::cover("dos"); } else if lone > 0 { sym::cover("unix"); }
    }
}
