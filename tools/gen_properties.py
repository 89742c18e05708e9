#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit the table here, then run this file."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mechanism],
            "observe_at": list(observe), "hook_needed": hook}})


ATOM = "atomtoolkit/atom.py"
HELP = "atomtoolkit/atom_helpers.py"
IO = "atomtoolkit/IO.py"
UTIL = "atomtoolkit/util.py"

prop("C01", "A saved atom survives a restart unchanged",
     "An atom saved to a file and loaded by a new process is indistinguishable from the original through the API: its name, "
     "nuclear spin and field, every level, sublevel and transition with their energies, coefficients, linewidths, fixed "
     "frequencies and aliases, and the way all of these respond to further edits. Atoms loaded twice from one file have nothing in "
     "common. This holds at whatever point of its editing and access history it is saved, and when the operating system interrupts or splits the reads and writes. The file is the "
     "given name with '.atom' appended unless it already ends in '.atom', whatever directories or dots the name contains, and "
     "the atom's own name when the given name is None.",
     ["histories", "fault_sequences", "inputs"],
     "every history of edits and lookups, every save point in it, every file name, and every pattern of short or interrupted reads and writes",
     "the tests save one freshly built three-level atom once and check only that its name comes back, in the same process",
     [ATOM], [("pickling of the whole object graph", "atom.py Atom.save / Atom.load"), ("extension rule", "atom.py Atom.save")],
     [("atom file", "pickled Atom on disk", "path given to Atom.save")],
     ["Atom.load in a fresh process, compared with a full observation of the original"])

prop("C02", "An interrupted save never destroys the saved atom",
     "Whatever stops a save - an I/O error, a full disk, a Ctrl-C, or the process or machine dying at any instant - the file "
     "afterwards loads as either the complete atom saved before or the complete new one, and exists if it existed before; a save "
     "that returned survives the death of the process. A save that fails raises, leaves the atom in memory unchanged, and can be "
     "repeated successfully once the fault is gone. Loading a file that was cut short, or that holds something else than an atom, raises, and "
     "loading never modifies the file.",
     ["crash_points", "fault_sequences", "histories"],
     "every system call of a save as the crash or fault point, every kind of disk fault, every sequence of saves",
     "no test injects a fault or crash: each save runs to completion on a healthy disk",
     [ATOM, UTIL], [("write beside the target, then atomic replace", "atom.py Atom.save, util.py atomic_write"),
                    ("load type check", "atom.py Atom.load")],
     [("atom file", "pickled Atom on disk", "path given to Atom.save")],
     ["the scratch directory after the simulated crash, loaded by a fresh process"])

prop("C03", "Hyperfine tables round-trip exactly and exports are crash-safe",
     "Exporting an atom's hyperfine coefficients and importing the file into an atom with the same levels, in the same or another "
     "process, reproduces every level's A, B and C to full precision (a level whose A is zero is written with the requested default "
     "A; a blank export is all zeros). An export that fails or is cut off by a crash at any instant raises if the process lives, "
     "leaves the atom unchanged, and leaves the file holding either the complete previous table or the complete new one.",
     ["crash_points", "fault_sequences", "histories", "inputs"],
     "every coefficient value, every edit history, every crash or disk-fault point of the export",
     "IO.py has no tests at all", [IO, UTIL],
     [("CSV of Quantity strings", "IO.py generate_hf_csv / apply_hf_csv"), ("atomic replace", "util.py atomic_write")],
     [("hyperfine CSV", "one row per level: name, A, B, C with units", "path given to generate_hf_csv")],
     ["the file after the run; coefficients of the importing atom"])

prop("C04", "Importing a hyperfine table is all or nothing",
     "Importing a hyperfine table that cannot be read to its end, is cut off in the middle of a row, or contains a malformed row or "
     "unit raises and leaves every coefficient of the atom exactly as it was. Importing a readable table sets the A, B and C of "
     "exactly the levels it names, whatever their values were before, and silently skips rows for levels the atom does not have.",
     ["fault_sequences", "inputs", "histories"],
     "every truncation point, damaged field, read error and row order of the file, and every prior state of the atom",
     "IO.py has no tests; a test would sample one well-formed file", [IO],
     [("parse every row before applying any", "IO.py apply_hf_csv")],
     [("hfA/hfB/hfC", "hyperfine coefficients of a level", "atom.py EnergyLevel")],
     ["coefficients of every level before and after the import"])

prop("C05", "Energies stay consistent through every edit history",
     "At every moment of an atom's life, whatever was edited or looked at before and in whatever units: a hyperfine sublevel lies at "
     "its level's energy plus the shift given by the level's current A, B, C and I, J, F; a Zeeman sublevel lies at its hyperfine "
     "sublevel's energy plus gF*mF*muB*B plus its quadratic coefficient times B squared, with gF from the level's current Lande "
     "factor; and a transition's frequency is the distance between its two end levels. Setting a level's energy sets exactly that level; setting a "
     "sublevel's energy puts that sublevel there by moving its whole level rigidly; neither moves any other level or any other atom.",
     ["histories", "schedules", "inputs"],
     "every sequence of edits and lookups over every mix of levels, spins and fields, interleaved over several atoms",
     "the tests use I=0 or never read a shifted energy, with B=0, and make one edit per test",
     [ATOM], [("energies computed from the parent on demand", "atom.py HFLevel.level_Hz, ZLevel.shift_Hz"),
              ("hyperfine and Zeeman formulas", "atom.py compute_hf_shift, ZLevel.shift_Hz"),
              ("sublevel edits move the parent", "atom.py HFLevel.level setter")],
     [("level energies", "centroid of each level", "EnergyLevel.level_Hz"), ("B", "field", "Atom.B_gauss")],
     ["level, shift and freq of every level, sublevel and transition after each step, against a reference model"])

prop("C06", "Looking at an atom never changes it",
     "Reading - looking up levels, sublevels, transitions and subtransitions by any key, listing, printing, computing linked levels, "
     "lifetimes or branching ratios, drawing, exporting or saving - has no effect that later reads or edits can see: the same edits "
     "with any other reads in between give the same atom. Repeating a lookup returns the same object as long as the thing looked up "
     "was not deleted or replaced, and edits made through one of these objects show in all its relatives no matter which of them had "
     "already been looked up.",
     ["schedules", "histories"],
     "every placement of reads between the edits of every edit history",
     "sublevels and subtransitions are created on first access, so the result can depend on when the first access happens; tests fix one order",
     [ATOM, HELP], [("lazy population on first access", "atom.py lazy_compute_sublevels, lazy_compute_subtransitions"),
                    ("derived quantities read live", "atom.py HFLevel.gF, BaseTransition.A")],
     [("_sublevels/_subtransitions", "lazily filled caches", "atom.py BaseLevel, BaseTransition")],
     ["full observation of two twins that differ only in their reads; object identity"])

prop("C07", "An interrupted lookup can simply be repeated",
     "If a lookup or other read-only query is cut short at any point by an exception from outside, such as Ctrl-C or running out of "
     "memory, repeating it gives the complete and correct answer, the same as if nothing had happened. Nothing else about the atom "
     "is lost or changed by the interruption, and the atom can still be edited, saved and loaded.",
     ["crash_points", "schedules", "histories"],
     "every point at which the interpreter can deliver an exception during every query, in every access history",
     "population happens inside the first access; tests never interrupt it, so a half-filled cache that looks populated is never seen",
     [ATOM, HELP], [("build the complete set, register it, then publish it in one step", "atom.py populate_sublevels, populate_subtransitions")],
     [("_sublevels/_subtransitions", "lazily filled caches", "atom.py BaseLevel, BaseTransition")],
     ["full observation after the repeated query, compared with an uninterrupted twin"])

prop("C08", "Threads can read one atom at the same time",
     "When several threads look up levels, sublevels, transitions, linked levels, lifetimes or branching ratios of the same atom at "
     "the same time, each of them gets the same complete answers and the very same objects as any other thread and as a later "
     "single-threaded reader, without errors or deadlock. Saving the atom or exporting its table in one of them at that time "
     "succeeds and writes the complete atom.",
     ["schedules", "histories"],
     "every interleaving of the threads at every point where the interpreter can switch threads, for every mix of first accesses",
     "tests are single-threaded; the window is inside lazy population", [ATOM, HELP],
     [("population under a lock with the populated check repeated", "atom.py lazy_compute_sublevels, lazy_compute_subtransitions")],
     [("_sublevels/_subtransitions", "lazily filled caches shared by the threads", "atom.py BaseLevel, BaseTransition"),
      ("internal graphs", "hyperfine and Zeeman graphs filled on first access", "atom.py Atom")],
     ["per-thread answers and object identities, then a sequential observation"])

prop("C09", "Fixed transition frequencies are all honoured",
     "After the frequency of a transition is set - directly, through one of its hyperfine or Zeeman components, or by adding the "
     "transition with a frequency, in any unit convertible to frequency - that transition and every other one linked to it through "
     "transitions of fixed frequency has the frequency it was last given, as long as these do not form a loop and no edit turned a "
     "transition upside down. The lowest level of the linked group keeps its energy, and so does every level outside the group "
     "provided the frequencies fixed there were honoured already. A contradictory loop is reported by a warning, and a consistent one is not.",
     ["histories", "inputs"],
     "every sequence of frequency settings over every tree of transitions, including settings repeated after neighbours were fixed",
     "the tests set one frequency per atom; the defects need a second setting next to an already fixed transition",
     [ATOM], [("walk over the graph of fixed transitions from its lowest level", "atom.py Atom.enforce_consistency"),
              ("component frequencies shift the parent", "atom.py HFTransition.set_frequency, ZTransition.set_frequency")],
     [("set_freq", "frequency a transition was fixed to", "atom.py BaseTransition")],
     ["freq of every fixed transition, energies of every level, warnings, after each step"])

prop("C10", "An edit that fails or is interrupted does no lasting harm",
     "An edit that is rejected because an argument is unusable leaves the atom exactly as it was: nothing half-built becomes visible "
     "and no existing level, transition or fixed frequency is replaced or poisoned. An edit that is cut short at any point by an "
     "exception such as Ctrl-C or lack of memory leaves every lookup and later edit working, and issuing it again gives the same atom as if it "
     "had never been interrupted.",
     ["crash_points", "inputs", "histories"],
     "every point at which each kind of edit can be interrupted, and every unusable argument, in every history",
     "tests never make an edit fail", [ATOM, HELP],
     [("a transition is registered only when completely built", "atom.py BaseTransition.__init__"),
      ("frequency validated before it is stored", "atom.py Transition.set_frequency")],
     [("internal graphs", "levels and transitions of the atom", "atom.py Atom")],
     ["full observation after the retry, against an uninterrupted twin"])

prop("C11", "The same script gives the same atom in every process",
     "Running the same sequence of edits and queries in another process gives identical results: the same energies after frequency "
     "settings (also when levels are degenerate or fixed transitions form loops), the same warnings, the same order of levels, "
     "transitions and sublevels in every listing, and the same query answers. Nothing depends on the interpreter's hash seed.",
     ["schedules", "histories"],
     "every hash seed of the interpreter and every edit history",
     "the test runner pins PYTHONHASHSEED, and one process is all a test sees", [ATOM, HELP],
     [("iteration in insertion or energy order, never in set order", "atom.py Atom.enforce_consistency")],
     [("graph of fixed transitions", "order in which it is walked", "atom.py Atom.enforce_consistency")],
     ["full ordered observation of the same script run under several hash seeds"])

prop("C12", "Every way of naming a thing finds that thing",
     "Throughout any history of adding, aliasing, deleting, re-adding, frequency setting, saving and loading, every documented key of "
     "a level, sublevel, transition or subtransition - full name, name and sublevel keys step by step, mJ form when I=0, energy rank, "
     "alias, and for transitions either order of the ends - returns exactly the one object whose ends or quantum numbers the key "
     "names, and queries accept an alias wherever they accept a name. Deleting a level or transition from the atom makes its name and its aliases fail with KeyError, and "
     "takes nothing else away but a deleted level's transitions.",
     ["histories", "inputs"],
     "every sequence of structure edits, every key form, every order in which levels were added",
     "tests look up levels added in energy order and only transitions from the first level; deletion is untested",
     [ATOM, HELP], [("key parsing", "atom_helpers.py LevelStructure, TransitionStructure"),
                    ("subtransition keys", "atom.py BaseTransition.__getitem__")],
     [("aliases", "alias to object maps", "atom_helpers.py")], ["identity and names of the object each key returns"])

prop("C13", "Lifetimes and branching ratios follow the current linewidths",
     "At any point of any history of adding, deleting and editing transitions, a level's branching ratios are the linewidths of its "
     "downward transitions divided by their sum - whatever units the linewidths were given in - and its lifetime is 2*pi over that sum, infinite when nothing "
     "decays; a branching query with an unknown linewidth raises ValueError. The linewidth of a subtransition is always its parent "
     "transition's current linewidth times its relative strength.",
     ["histories", "inputs"],
     "every history of linewidth edits in every unit, before and after subtransitions were first looked up",
     "one fixed atom with linewidths given once at construction is tested", [ATOM],
     [("sum over linked levels", "atom.py state_lifetime, compute_branching_ratios"), ("linewidth kept in Hz", "atom.py BaseTransition.A")],
     [("A", "linewidth of a transition", "atom.py BaseTransition")], ["results of the queries against a reference model"])

prop("C14", "A level table is loaded from NIST whole or not at all",
     "Whatever the network does - refuses, times out, resets, answers with an error page, cuts the answer short, or delivers it in "
     "arbitrary pieces - loading a level table either returns exactly the levels of the complete answer that have an energy and lie below the "
     "ionization limit (one row per possible J, missing Lande factors left missing), or raises. A saved copy of the table is "
     "replaced only by a complete new one, also when saving fails or the process dies.",
     ["fault_sequences", "inputs", "crash_points"],
     "every network failure point and segmentation, every table, every crash point of saving it",
     "the loader has no test since it needs the network", [IO, UTIL],
     [("download through pandas/urllib and clean-up", "IO.py _load_NIST_data")],
     [("saved CSV", "optional copy of the table", "IO.py load_NIST_data save=")], ["returned table and saved file"])

prop("C15", "Populating an atom from tables is complete and repeatable",
     "Building an atom from a level table and filling in its transitions, by selection rules or from a transition table, gives every "
     "listed level that can be named with its tabulated energy and exactly the listed or allowed transitions between them; filling by selection rules "
     "neither replaces transitions that already exist nor leaves forbidden ones behind. A hyperfine table that cannot be understood is reported. "
     "If filling is cut short at any "
     "point - by an exception, or because the progress bar cannot be written - the atom stays usable, and running it again gives the "
     "same atom as an undisturbed run.",
     ["crash_points", "fault_sequences", "inputs", "histories"],
     "every interruption point of every population step, every level and transition table",
     "both tests are empty stubs ('TODO')", [ATOM, IO],
     [("row by row population", "atom.py from_dataframe, populate_transitions, populate_transitions_df, populate_internal_transitions")],
     [("internal graphs", "levels and transitions", "atom.py Atom")], ["observation of the atom against the table and selection rules"])

prop("C16", "A level diagram always shows the atom as it is now",
     "Rendering a Grotrian diagram draws each added level and transition once, at positions given by the current energies, no matter "
     "how often, on which axes, or with which interrupted attempts the same diagram was rendered before, and what was edited in between. "
     "Rendering the same diagram and atom twice draws the same picture.",
     ["histories", "crash_points"],
     "every sequence of renders, edits and interrupted renders",
     "the render package has no tests", ["atomtoolkit/render/grotrian.py"],
     [("position table rebuilt on each render", "grotrian.py Grotrian.render_levels")],
     [("lines_df", "computed positions", "grotrian.py Grotrian")], ["line segments and arrows on the axes against a fresh diagram"])

prop("C17", "Cached angular-momentum results cannot be corrupted",
     "The Wigner symbols, transition strengths and coupling transforms always return what a first call in a fresh process would "
     "return, and the Wigner symbols their exact values: regardless of what was computed before, of the numeric type of the arguments, "
     "of calls cut short by an exception, of other threads that compute at the same time, and of what callers do with the results "
     "they were given.",
     ["histories", "crash_points", "schedules"],
     "every sequence of calls, argument types, interruptions, thread schedules and modifications of returned values",
     "each test makes one call and drops the result; the caches live as long as the process",
     ["atomtoolkit/wigner.py", "atomtoolkit/transition_strengths.py"],
     [("unbounded lru_cache on each function", "wigner.py, transition_strengths.py")],
     [("function caches", "results shared by all callers", "wigner.py, transition_strengths.py")],
     ["results against a fresh process and exact Racah sums"])

prop("C18", "A spectrum shows the atom's lines as they are now",
     "plot_transitions, plot_hyperfine_spectrum, plot_zeeman_spectrum and plot_spectrum draw each of the lines they are asked for exactly once, "
     "at the frequency and with the relative strength the atom has at that moment and in the line shape given, and the sum of exactly those "
     "lines; they change neither the atom, nor the lists and dictionaries they are given, nor lines drawn earlier: after any sequence of "
     "edits, other plots, and plots that were cut short.",
     ["histories", "crash_points"],
     "every sequence of plots, edits and interrupted plots in all forms of the API",
     "the render package has no tests", ["atomtoolkit/render/spectra.py", "atomtoolkit/render/lineshapes.py"],
     [("lines recomputed on each plot", "spectra.py plot_transitions"), ("components of a transition", "spectra.py plot_*_spectrum")],
     [("curves on the axes", "each line and their sum", "spectra.py plot_transitions")], ["the curves on the axes against the live frequencies and strengths of the atom"])

NA = "a pure function of its argument"
prop("N01", "Term symbols are parsed correctly",
     "The coupling scheme and quantum numbers extracted from a configuration and term symbol are those the notation states, for every "
     "LS, JJ, JK and LK term written in NIST's conventions.",
     ["inputs"], "every term symbol", "tests list 19 symbols", [UTIL, "atomtoolkit/term.py"], [("regular expressions", "util.py parse_*")])
prop("N02", "Recoupling preserves normalisation",
     "The amplitudes of a JJ-, JK- or LK-coupled state in the LS basis have squares summing to one.",
     ["inputs"], "all quantum numbers", "untested", ["atomtoolkit/transition_strengths.py"], [("9j/6j formulas", "transition_strengths.py")])
prop("N03", "Line strengths obey the selection and sum rules",
     "Relative strengths of the components of a transition vanish exactly when forbidden and sum as angular-momentum algebra demands, for E1, M1 and E2.",
     ["inputs"], "all quantum numbers and polarisations", "untested", ["atomtoolkit/transition_strengths.py", ATOM], [("Wigner algebra", "transition_strengths.py, atom.py compute_linewidth")])
prop("N04", "Estimated Lande factors are right for pure couplings",
     "A level created without a Lande factor gets the textbook value of its coupling scheme.",
     ["inputs"], "all terms", "untested", [ATOM], [("compute_gJ", "atom.py EnergyLevel.compute_gJ")])
prop("N05", "Line shapes and spectra have the stated width and height",
     "Each line shape peaks at the line centre with the given amplitude and has the stated width, and the total spectrum is the sum of its lines.",
     ["inputs"], "all widths and lines", "untested", ["atomtoolkit/render/lineshapes.py", "atomtoolkit/render/spectra.py"], [("profiles", "lineshapes.py")])

out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
