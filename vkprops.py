"""Per-property configuration of the driver."""
import c29run
R_HIST = "Histories of public operations, arguments drawn from ranges, boundary values (multiples of pi/4 and 90 deg, +- ulps), log-uniform offsets and the literals of the current sources."
R_IN = "Inputs drawn from ranges, boundary values, log-uniform offsets around them and the literals of the current sources; the most suspicious by a cheap double-precision screen plus a uniform sample are judged."
PROPS = {
    "C01": dict(spec="c01", proofs=[("p01", "inductive", 1)], ni=4, no=8, level="model_checking", rule=R_HIST,
                mbt=dict(main="m01", file="m01", inv="inv", traces=(25, 400), steps=30)),
    "C02": dict(spec="c02", proofs=[("p02", "inductive", 1), ("m02", "bounded", 3)], ni=4, no=8, level="model_checking", rule=R_HIST,
                mbt=dict(main="m02", file="m02", inv="inv", traces=(25, 400), steps=30)),
    "C03": dict(spec="c03", proofs=[("p03", "inductive", 1)], ni=4, no=6, level="exploration", rule=R_IN),
    "C04": dict(spec="c04", ni=4, no=17, level="exploration", rule=R_IN),
    "C05": dict(spec="c05", proofs=[("p05", "inductive", 1)], ni=10, no=6, level="exploration", rule=R_IN),
    "C06": dict(spec="c06", ni=10, no=4, level="exploration", rule=R_IN),
    "C07": dict(spec="c07", proofs=[("m07", "bounded", 6)], ni=3, no=11, level="model_checking", rule="Random edit histories of two coordinate reference system descriptions, one field at a time.",
                mbt=dict(main="m07", file="m07", inv="inv", traces=(60, 1000), steps=25)),
    "C08": dict(spec="c08", ni=6, no=4, level="exploration", rule=R_IN),
    "C09": dict(spec="c09", ni=6, no=4, level="exploration", rule=R_IN),
    "C10": dict(spec="c10", proofs=[("p10", "inductive", 1)], ni=6, no=8, level="model_checking", rule=R_HIST,
                mbt=dict(main="m10", file="m10", inv="inv", traces=(25, 400), steps=30)),
    "C11": dict(spec="c11", ni=3, no=13, level="exploration", rule=R_IN),
    "C12": dict(spec="c12", ni=1, no=8, level="exploration", rule="Every entry of the three registries."),
    "C13": dict(spec="c13", ni=10, no=4, level="exploration", rule=R_IN),
    "C14": dict(spec="c14", ni=10, no=4, level="exploration", rule=R_IN),
    "C15": dict(spec="c15", ni=10, no=8, level="exploration", rule=R_IN),
    "C16": dict(spec="c16", ni=10, no=4, level="exploration", rule=R_IN),
    "C17": dict(spec="c17", ni=10, no=4, level="exploration", rule=R_IN),
    "C18": dict(spec="c18", ni=11, no=4, level="exploration", rule=R_IN),
    "C19": dict(spec="c19", ni=53, no=10, level="exploration", rule=R_IN),
    "C20": dict(spec="c20", ni=7, no=32, level="exploration", rule=R_IN),
    "C21": dict(spec="c21", ni=23, no=4, level="exploration", rule=R_IN),
    "C22": dict(spec="c22", ni=6, no=8, level="exploration", rule=R_IN),
    "C23": dict(spec="c23", ni=6, no=8, level="exploration", rule=R_IN),
    "C24": dict(spec="c24", ni=6, no=4, level="exploration", rule=R_IN),
    "C25": dict(spec="lines", ni=9, no=20, level="model_checking", rule="Histories of builder operations over a small pool of positions in six reference systems.",
                mbt=dict(main="m25", file="m25", inv="inv", traces=(25, 500), steps=30)),
    "C26": dict(spec="lines", ni=9, no=22, level="exploration", rule="Polylines and curves built by random histories, queried at ends, vertices, fractions and outside."),
    "C27": dict(spec="lines", ni=9, no=22, level="model_checking", rule="Histories of curve assembly over a small pool of positions in six reference systems.",
                mbt=dict(main="m25", file="m25", inv="inv", traces=(25, 500), steps=30)),
    "C28": dict(spec="c28", ni=12, no=35, level="exploration", rule=R_IN),
    "C29": dict(spec="c29", ni=6, no=7, level="model_checking", external=c29run.external,
                rule="Runs of the sampling program over kinds, figures, units and counts, each run a history of written lines.",
                note="The run of the program is an explicit Quint state machine (arguments; lines; end of run) that judges every line, and the distribution of the lines with a Dvoretzky-Kiefer-Wolfowitz bound (false alarm probability below 1e-10 per check). The program's random source cannot be seeded, so runs differ."),
    "C30": dict(spec="c30", proofs=[("m30", "bounded", 4)], ni=5, no=17, level="model_checking",
                rule="Sessions that make, forget and question nearly identical objects, repeating questions, in one thread and several.",
                mbt=dict(main="m30", file="m30", inv="inv", traces=(25, 400), steps=40)),
    "C31": dict(spec="c31", ni=26, no=7, level="model_checking",
                rule="Journeys of 5-12 hops through 2-5 random systems, and model-generated ones through 13 realistic systems.",
                mbt=dict(main="m31", file="m31", inv="inv", traces=(12, 300), steps=36)),
}
