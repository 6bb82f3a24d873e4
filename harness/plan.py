"""What each check explores, per tier: TLC models whose states or histories
are replayed, and the number of random cases."""
SEQ = ["MCBuild:MCBuild", "MCBuild:MCGrid"]
DEEP = ["MCBuild:MCBuildDeep", "MCBuild:MCGridDeep"]
PLAN = {
    "C01": {"quick": {"models": SEQ, "cases": 700}, "thorough": {"models": DEEP, "cases": 8000, "max_inputs": 20000}},
    "C02": {"quick": {"models": SEQ, "cases": 700}, "thorough": {"models": DEEP, "cases": 8000, "max_inputs": 15000}},
    "C03": {"quick": {"models": SEQ, "cases": 300}, "thorough": {"models": DEEP, "cases": 3000, "max_inputs": 8000}},
    "C04": {"quick": {"models": SEQ, "cases": 150, "max_inputs": 1000}, "thorough": {"models": DEEP, "cases": 2000, "max_inputs": 6000}},
    "C05": {"quick": {"models": SEQ, "cases": 400}, "thorough": {"models": DEEP, "cases": 4000, "max_inputs": 10000}},
    "C06": {"quick": {"models": SEQ + ["MCRatio:MCRatio"], "cases": 300, "max_inputs": 1500}, "thorough": {"models": DEEP + ["MCRatio:MCRatioDeep", "MCRatio:MCRatio5"], "cases": 4000, "max_inputs": 12000}},
    "C07": {"quick": {"models": ["MCRatio:MCRatio"], "cases": 600, "max_inputs": 500}, "thorough": {"models": ["MCRatio:MCRatioDeep", "MCRatio:MCRatio5"], "cases": 9000, "max_inputs": 8000}},
    "C08": {"quick": {"models": ["MCRatio:MCProj"], "cases": 600, "max_inputs": 500}, "thorough": {"models": ["MCRatio:MCProj", "MCRatio:MCProj5"], "cases": 9000, "max_inputs": 6000}},
    "C09": {"quick": {"models": ["MCRatio:MCProj"], "cases": 500, "max_inputs": 400}, "thorough": {"models": ["MCRatio:MCProj", "MCRatio:MCProj5"], "cases": 6000, "max_inputs": 6000}},
    "C10": {"quick": {"models": ["MCRatio:MCMack"], "cases": 500, "max_inputs": 400}, "thorough": {"models": ["MCRatio:MCMack", "MCRatio:MCMack5"], "cases": 7000, "max_inputs": 5000}},
    "C11": {"quick": {"models": ["MCRatio:MCMack"], "cases": 500, "max_inputs": 400}, "thorough": {"models": ["MCRatio:MCMack", "MCRatio:MCMack5"], "cases": 6000, "max_inputs": 5000}},
    "C12": {"quick": {"models": ["MCLevels:MCLevels"], "cases": 600, "max_inputs": 350}, "thorough": {"models": ["MCLevels:MCLevelsDeep"], "cases": 6000, "max_inputs": 4000}},
    "C13": {"quick": {"models": ["MCRatio:MCTests"], "cases": 600, "max_inputs": 500}, "thorough": {"models": ["MCRatio:MCTests5"], "cases": 9000, "max_inputs": 9000}},
    "C14": {"quick": {"models": ["MCRatio:MCTests"], "cases": 600, "max_inputs": 500}, "thorough": {"models": ["MCRatio:MCTests6"], "cases": 9000, "max_inputs": 9000}},
    "C15": {"quick": {"models": ["MCRatio:MCFit"], "cases": 500, "max_inputs": 300}, "thorough": {"models": ["MCRatio:MCFit", "MCRatio:MCFit5"], "cases": 6000, "max_inputs": 4000}},
    "C16": {"quick": {"models": ["MCBoot:MCBoot"], "cases": 300, "max_inputs": 300}, "thorough": {"models": ["MCBoot:MCBootDeep", "MCBoot:MCBootProc"], "cases": 2500, "max_inputs": 4000}},
    "C17": {"quick": {"models": ["MCLevels:MCLevels"], "cases": 400, "max_inputs": 300}, "thorough": {"models": ["MCLevels:MCLevelsDeep"], "cases": 4000, "max_inputs": 3000}},
    "C18": {"quick": {"models": ["MCSeed:MCSeed"], "cases": 80, "max_inputs": 150}, "thorough": {"models": ["MCSeed:MCSeedDeep"], "cases": 3000, "max_inputs": 3000}},
    "C19": {"quick": {"models": ["MCSession:MCSession"], "cases": 200, "max_inputs": 300}, "thorough": {"models": ["MCSession:MCSession", "MCSession:MCSessionDeep"], "cases": 4000, "max_inputs": 4000}},
    "C20": {"quick": {"models": ["MCDb:MCDb"], "cases": 600, "max_inputs": 500}, "thorough": {"models": ["MCDb:MCDbDeep"], "cases": 7000, "max_inputs": 6000}},
    "C21": {"quick": {"models": ["MCRelate:MCRelate"], "cases": 400, "max_inputs": 400}, "thorough": {"models": ["MCRelate:MCRelate"], "cases": 5000}},
    "C22": {"quick": {"models": ["MCReq:MCReq"], "cases": 400, "max_inputs": 400}, "thorough": {"models": ["MCReq:MCReqDeep"], "cases": 5000, "max_inputs": 6000}},
    "C23": {"quick": {"models": ["MCPlot:MCPlot"], "cases": 160, "max_inputs": 100}, "thorough": {"models": ["MCPlot:MCPlot"], "cases": 2000}},
    "C24": {"quick": {"models": [], "cases": 160}, "thorough": {"models": [], "cases": 1600}},
    "C25": {"quick": {"models": ["MCRatio:MCProj"], "cases": 250, "max_inputs": 250}, "thorough": {"models": ["MCRatio:MCProj"], "cases": 3000, "max_inputs": 3000}},
    "C26": {"quick": {"models": ["MCGrow:MCGrow"], "cases": 300, "max_inputs": 300}, "thorough": {"models": ["MCGrow:MCGrow", "MCGrow:MCGrowDeep"], "cases": 4000, "max_inputs": 3000}},
    "C27": {"quick": {"models": ["MCGrow:MCGrow"], "cases": 300, "max_inputs": 400}, "thorough": {"models": ["MCGrow:MCGrow", "MCGrow:MCGrowDeep"], "cases": 4000, "max_inputs": 4000}},
    "C28": {"quick": {"models": ["MCTable:MCTable"], "cases": 600, "max_inputs": 500}, "thorough": {"models": ["MCTable:MCTableDeep"], "cases": 5000, "max_inputs": 12000}},
}
ASSUME = {
    "all": ["Amounts are compared to 1e-9 of their scale (the library computes in binary floating point, the specification exactly).",
            "java/Rat.java computes the rational and real functions of Rat.tla (compared with pure TLA+ definitions by RatCheck.tla)."],
    "C01": ["Every origin and period named by a record has an amount somewhere (otherwise the library has no label to show it under)."],
}
B = ("Model states are exhaustive within the stated constants and every one (or a seeded sample where a cap is set) is executed by "
     "the real library; beyond them, seeded random inputs are recorded and every response validated against the specification. ")
R4 = ("every 4x4 triangle whose development ratios come from %s, with every single ratio excluded (thorough: 5x5 of two ratios; pairs excluded for C06 and C07)")
NOTE = {
    "C01": B + "Bounds: all record sequences up to 3 (thorough: 4) over 2x2 cells, all 3x3 staircase gap/sign patterns; random up to 7x7.",
    "C02": B + "Bounds as C01, cumulative triangles.",
    "C03": B + "Bounds as C01, expressed in each of the four formats/shapes and both kinds.",
    "C04": B + "Bounds as C01; conversion chains.",
    "C05": B + "Bounds as C01; geometry read in several orders, every diagonal offset.",
    "C06": B + "Bounds as C01, and " + R4 % "{1, 3/2, 2}" + "; random indicator histories of up to ten assignments on two triangles.",
    "C07": B + "Bounds: " + R4 % "{1, 3/2, 2}" + "; random staircase triangles 2x2 to 8x8, all methods and windows, after each of several indicator switches.",
    "C08": B + "Bounds: " + R4 % "{1/2, 1, 2}" + "; random triangles 3x3 to 9x9, every average or custom factors in every form, several tails, with exclusions.",
    "C09": B + "As C08, completed squares of base and bootstrap.",
    "C10": B + "Bounds: " + R4 % "{5/4, 3/2, 2}" + "; random triangles 4x4 to 9x9 with exclusions, five exponents.",
    "C11": B + "Bounds as C10; random triangles 4x4 to 9x9 with exclusions, five exponents.",
    "C12": B + "Bounds: all sequences of up to three levels of seven, both sidednesses; random triangles 4x4 to 7x7; level sets, both distributions, requested quantiles.",
    "C13": B + "Bounds: every 5x5 triangle of ratios {1, 3/2} (thorough: {1, 3/2, 2}, and 6x6 of {1, 3/2}); random triangles 4x4 to 10x10 with ties and exclusions; thirteen levels.",
    "C14": B + "Bounds as C13; random triangles 4x4 to 10x10 with ties and exclusions; thirteen levels.",
    "C15": B + "Bounds: every 4x4 triangle of ratios {5/4, 3/2, 2} with exclusions (thorough: 5x5); random triangles 3x3 to 8x8 with exclusions and falling amounts; parametric or not, seeded or not.",
    "C16": B + "Bounds: every choice of residuals (2 per cell, thorough: 4) and process multiples for four 3x3 triangles, drawn by a scripted generator; random triangles 3x3 to 7x7; every cell of every simulation judged.",
    "C17": B + "Bounds: all sequences of up to three levels of seven, both sidednesses; random triangles 3x3 to 7x7; five interpolations, lower bounds.",
    "C18": B + "Bounds: all histories of four (thorough: five) seeded, unseeded and generator-driven runs, global draws, reseedings and switches; random call histories of every method.",
    "C19": B + "Bounds: all histories of four calls, switches and swaps on two triangles (thorough: five); random call histories on twin triangles with inclusion switches; all live triangles, kept answers and arguments compared.",
    "C20": B + "Bounds: every subset of six database rows crossed with every filter; seven bundled datasets against golden copies; random loss reserving databases and selections.",
    "C21": B + "Bounds: every combination of four units, three origin shifts, four period labellings, two record orders, four methods and four 4x4 triangles; random pairs of related runs on triangles 4x4 to 6x6.",
    "C22": B + "Bounds: every pair (thorough: triple) of good or bad requests of every kind; random admissible and inadmissible requests of every documented kind.",
    "C23": B + "Bounds: every exhibit and option for four 4x4 triangles with each ratio excluded (quick: a seeded sample of 100); six exhibits over random triangles 4x4 to 6x6, read back from the drawn figure.",
    "C24": B + "Frequencies and moments of thousands of draws, six-sigma bounds; seeds are fixed per run, so verdicts are reproducible.",
    "C25": B + "Bounds: " + R4 % "{1/2, 1, 2}" + "; random triangles 3x3 to 10x10 (some 22x22 and larger), small and large amounts, every method, level sets.",
    "C26": B + "Bounds: every 4x4 triangle (thorough: 5x5) grown by ratios {1, 3/2, 2}; random triangles 3x3 to 7x7, a third of them of uniform development, with exclusions, built in five ways.",
    "C27": B + "Bounds: every history of valuations up to 4x4 (thorough: 5x5) developing by ratios {1, 3/2, 2} or as projected; random histories of two or three valuations of triangles 3x3 to 9x9.",
    "C28": B + "Bounds: every program of up to two (thorough: three) of fifteen table operations and a reduction, on two triangles; random programs on triangles 3x3 to 8x8, their increments, earlier valuations and the tables of estimates.",
}
