pub spec const SEEN_MAX: int = 0x1000_0000_0000_0000;
global size_of usize == 8;
