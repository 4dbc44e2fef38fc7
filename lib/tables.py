"""Reference data: the texts of glyph names of mathematical fonts (as in the TeX glyph lists), and the combining variants of marks
(as in the compatibility decompositions of Unicode)."""

NAMES = {
    "summationdisplay": 0x2211,
    "summationssdisplay": 0x2211,
    "angbracketleft": 0x3008,
    "angbracketright": 0x3009,
    "circlecopyrt": 0x00A9,
    "controlNULL": 0x0000,
    "angbracketleftbig": 0x2329,
    "angbracketleftBig": 0x2329,
    "angbracketleftbigg": 0x2329,
    "angbracketleftBigg": 0x2329,
    "angbracketrightBig": 0x232A,
    "angbracketrightbig": 0x232A,
    "angbracketrightBigg": 0x232A,
    "angbracketrightbigg": 0x232A,
    "arrowhookleft": 0x21AA,
    "arrowhookright": 0x21A9,
    "arrowlefttophalf": 0x21BC,
    "arrowleftbothalf": 0x21BD,
    "arrownortheast": 0x2197,
    "arrownorthwest": 0x2196,
    "arrowrighttophalf": 0x21C0,
    "arrowrightbothalf": 0x21C1,
    "arrowsoutheast": 0x2198,
    "arrowsouthwest": 0x2199,
    "backslashbig": 0x2216,
    "backslashBig": 0x2216,
    "backslashBigg": 0x2216,
    "backslashbigg": 0x2216,
    "bardbl": 0x2016,
    "bracehtipdownleft": 0xFE37,
    "bracehtipdownright": 0xFE37,
    "bracehtipupleft": 0xFE38,
    "bracehtipupright": 0xFE38,
    "braceleftBig": 0x007B,
    "braceleftbig": 0x007B,
    "braceleftbigg": 0x007B,
    "braceleftBigg": 0x007B,
    "bracerightBig": 0x007D,
    "bracerightbig": 0x007D,
    "bracerightbigg": 0x007D,
    "bracerightBigg": 0x007D,
    "bracketleftbig": 0x005B,
    "bracketleftBig": 0x005B,
    "bracketleftbigg": 0x005B,
    "bracketleftBigg": 0x005B,
    "bracketleftmath": 0x005B,
    "bracketrightBig": 0x005D,
    "bracketrightbig": 0x005D,
    "bracketrightbigg": 0x005D,
    "bracketrightBigg": 0x005D,
    "bracketrightmath": 0x005D,
    "ceilingleftbig": 0x2308,
    "ceilingleftBig": 0x2308,
    "ceilingleftBigg": 0x2308,
    "ceilingleftbigg": 0x2308,
    "ceilingrightbig": 0x2309,
    "ceilingrightBig": 0x2309,
    "ceilingrightbigg": 0x2309,
    "ceilingrightBigg": 0x2309,
    "circledotdisplay": 0x2299,
    "circledottext": 0x2299,
    "circlemultiplydisplay": 0x2297,
    "circlemultiplytext": 0x2297,
    "circleplusdisplay": 0x2295,
    "circleplustext": 0x2295,
    "contintegraldisplay": 0x222E,
    "contintegraltext": 0x222E,
    "coproductdisplay": 0x2210,
    "coproducttext": 0x2210,
    "epsilon1": 0x03B5,
    "equalmath": 0x003D,
    "floorleftBig": 0x230A,
    "floorleftbig": 0x230A,
    "floorleftbigg": 0x230A,
    "floorleftBigg": 0x230A,
    "floorrightbig": 0x230B,
    "floorrightBig": 0x230B,
    "floorrightBigg": 0x230B,
    "floorrightbigg": 0x230B,
    "hatwide": 0x005E,
    "hatwider": 0x005E,
    "hatwidest": 0x005E,
    "intercal": 0x1D40,
    "integraldisplay": 0x222B,
    "integraltext": 0x222B,
    "intersectiondisplay": 0x22C2,
    "intersectiontext": 0x22C2,
    "logicalanddisplay": 0x2227,
    "logicalandtext": 0x2227,
    "logicalordisplay": 0x2228,
    "logicalortext": 0x2228,
    "parenleftBig": 0x0028,
    "parenleftbig": 0x0028,
    "parenleftBigg": 0x0028,
    "parenleftbigg": 0x0028,
    "parenleftmath": 0x0028,
    "parenrightBig": 0x0029,
    "parenrightbig": 0x0029,
    "parenrightBigg": 0x0029,
    "parenrightbigg": 0x0029,
    "parenrightmath": 0x0029,
    "plusmath": 0x002B,
    "prime": 0x2032,
    "productdisplay": 0x220F,
    "producttext": 0x220F,
    "question_sign": 0x003F,
    "radicalbig": 0x221A,
    "radicalBig": 0x221A,
    "radicalBigg": 0x221A,
    "radicalbigg": 0x221A,
    "radicalbt": 0x221A,
    "radicaltp": 0x221A,
    "radicalvertex": 0x221A,
    "slashbig": 0x002F,
    "slashBig": 0x002F,
    "slashBigg": 0x002F,
    "slashbigg": 0x002F,
    "summationtext": 0x2211,
    "thumbs_down": 0x1F44E,
    "thumbs_down_alt": 0x1F44E,
    "thumbs_up": 0x1F44D,
    "thumbs_up_alt": 0x1F44D,
    "tildewide": 0x02DC,
    "tildewider": 0x02DC,
    "tildewidest": 0x02DC,
    "uniondisplay": 0x22C3,
    "unionmultidisplay": 0x228E,
    "unionmultitext": 0x228E,
    "unionsqdisplay": 0x2294,
    "unionsqtext": 0x2294,
    "uniontext": 0x22C3,
    "vextenddouble": 0x2225,
    "vextendsingle": 0x2223,
}

COMBINING = {
    0x0022: 0x030B,
    0x0027: 0x0301,
    0x005E: 0x0302,
    0x005F: 0x0332,
    0x0060: 0x0300,
    0x007E: 0x0303,
    0x00A8: 0x0308,
    0x00AF: 0x0304,
    0x00B0: 0x030A,
    0x00B4: 0x0301,
    0x00B8: 0x0327,
    0x02B2: 0x0321,
    0x02B7: 0x032B,
    0x02B9: 0x0301,
    0x02CC: 0x0329,
    0x02BA: 0x030B,
    0x02BB: 0x0312,
    0x02BC: 0x0313,
    0x02BD: 0x0314,
    0x02C6: 0x0302,
    0x02C7: 0x030C,
    0x02C8: 0x030D,
    0x02C9: 0x0304,
    0x02CA: 0x0301,
    0x02CB: 0x0300,
    0x02CD: 0x0331,
    0x02D4: 0x031D,
    0x02D5: 0x031E,
    0x02D6: 0x031F,
    0x02D7: 0x0320,
    0x02DA: 0x030A,
    0x02DC: 0x0303,
    0x02DD: 0x030B,
    0x0384: 0x0301,
    0x0485: 0x0314,
    0x0486: 0x0313,
    0x0559: 0x0314,
    0x055A: 0x0313,
    0x204E: 0x0359,
}
