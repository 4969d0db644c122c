#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                     mechanism=[dict(zip(("name", "where"), m)) for m in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "The computed field depends on the body and the point, never on history",
  "The gravity and gradient computed for a body at a point are the attraction [mGal] of the homogeneous convex hull of the body's points there and the gradient of it [E], whatever was done before with the same or other bodies: other points, with or without gradient, other densities, failed computations, computations interrupted at any instant. Results already returned never change afterwards, and neither do the arrays the caller passed in.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of computations over shared body objects, with an interruption (KeyboardInterrupt, MemoryError) or a natural failure (a point on a corner) at any call boundary of any of them, at any point off the surface of the body and up to a hundred times its size away (much further, the closed formulas run out of digits)",
  "the tests compute one unit cube, at one or a few fixed points, on a new body each time, and never interrupt anything; intermediate values are cached on faces and edges, so only sequences show a leak",
  ["geec/polyhedron.py", "geec/utils.py", "geec/station.py"],
  [("per-face and per-edge intermediate values", "line integrals and solid angles of the point being computed, shared between the two faces of an edge", "geec/polyhedron.py Face, Edge")],
  [("reset of intermediate values before and after each computation", "geec/polyhedron.py Polyhedron.get_gravity, reset"), ("closed-form solid angles and line integrals", "geec/polyhedron.py Face, Edge")],
  ["return value of Polyhedron.get_gravity", "Station.G and Station.T", "the caller's arrays"])
p("C02", "A station's totals are the sum of exactly the computations that completed",
  "A station starts at zero, and after any sequence of computations its gravity and gradient totals are the sum of the fields of the bodies of exactly those calls that returned normally, each with the density and constant it was called with. A call over several bodies that fails or is interrupted, at any instant and in any body, leaves the totals as they were, so that repeating it gives the right totals.",
  ["histories", "fault_sequences"],
  "every sequence of calls with one body or a list of bodies (repeated ones included), any gradient flag, with failures and interruptions at any call boundary and retries",
  "the tests make one successful call on a new station; no test has two bodies, a failing body or a retry",
  ["geec/station.py", "geec/polyhedron.py"],
  [("station totals", "accumulated gravity vector and gradient tensor", "geec/station.py Station.G, Station.T")],
  [("sum over bodies first, then add to the totals", "geec/station.py Station.compute_gravity")],
  ["Station.G, Station.T after every call, successful or not"])
p("C03", "Threads computing at the same time get what they would get alone",
  "When several threads compute fields at the same time, each for its own stations, over bodies that they may share, and copies and pickles that they make of these meanwhile, every thread gets the same fields as if it ran alone, no call fails or blocks forever, and all threads finish.",
  ["schedules"],
  "every interleaving of 2 to 4 threads at call boundaries, over shared and private bodies, with and without gradient",
  "no test uses threads; a mix-up needs a switch between two particular steps of two computations",
  ["geec/polyhedron.py", "geec/station.py"],
  [("intermediate values on shared faces and edges", "belong to one computation at a time", "geec/polyhedron.py")],
  [("one computation at a time", "geec/polyhedron.py Polyhedron.get_gravity")],
  ["results of each thread", "termination of all threads"])
p("C04", "A run that succeeds has written the right field for every observation point",
  "A healthy run exits with success, and its csv file then holds the documented two header lines and, for every configured observation point in the configured order, one row with its position, the total gravity [mGal] of all configured bodies (each with its own density and gravity constant) and, if asked for, the gradient [E] (zero otherwise), all in the frame and on the vertical datum configured. What the operating system may legally do meanwhile (short reads and writes, interrupted system calls, clock steps) changes nothing.",
  ["configurations", "inputs", "fault_sequences"],
  "every valid configuration (cartesian, geocentric, geodetic, local ENU; named and custom ellipsoids; 4 vertical datums; points, file or grid; several bodies) and every pattern of transparent I/O faults",
  "the only end-to-end tests cannot run here and check the exit code only; no test covers a geodetic or ENU configuration, a geoid, a second body, or any I/O fault",
  ["geec/cli.py", "geec/mass.py", "geec/observer.py", "geec/dataset.py", "geec/crs.py", "geec/config.py", "geec/api.py", "geec/polyhedron.py", "geec/station.py"],
  [("csv file", "the results", "path given on the command line, suffix .csv")],
  [("pipeline", "geec/cli.py run"), ("conversions", "geec/dataset.py, geec/crs.py"), ("output", "geec/api.py write_file")],
  ["exit status", "the csv file"])
p("C05", "The output file holds the former content or the complete new one, always",
  "At every instant of a run (or of the creation of a configuration template), and so after a crash, a kill, a power cut, a full disk or any other failure at any instant, the output file is either as it was before (absent, or its former bytes) or the complete new file; never empty, cut short or mixed.",
  ["crash_points", "fault_sequences"],
  "every crash point before, inside (torn) and after every file operation, power cut losing whatever was not synced, and every I/O error, with and without a former output file",
  "no test has a former output file, a crash or an I/O error",
  ["geec/api.py", "geec/cli.py"],
  [("output file", "former or new results", "path given on the command line")],
  [("write a temporary file, sync, rename", "geec/api.py replace_file")],
  ["bytes of the output file after the crash"])
p("C06", "A run never reports success unless its results are written and right",
  "Whatever goes wrong with a file a run needs (unreadable, missing, torn or malformed input or configuration, failing or full output disk, out of memory, interruption), the run either overcomes it and its results are exactly those of the files as they are, or it ends with a non-zero exit status; the message that results are saved is printed only once they are. A torn or malformed coordinate file is refused, never turned into missing values.",
  ["fault_sequences", "crash_points", "inputs"],
  "every hard I/O error at every operation on configuration, input, grid and output files, every truncation point of an input file, interruption and memory exhaustion at every call boundary",
  "no test injects a failure, or checks an exit status other than 0",
  ["geec/cli.py", "geec/api.py", "geec/dataset.py", "geec/config.py", "geec/crs.py"],
  [("exit status and messages", "what the run claims", "process exit, stderr")],
  [("errors propagate to the command line", "geec/cli.py, geec/config.py, geec/dataset.py"), ("validation of coordinates", "geec/dataset.py")],
  ["exit status, stderr, csv file"])
p("C07", "Past runs, failed or not, never influence a later one",
  "After any history of runs with any configurations and outputs, in other processes or earlier in the same one, some of which crashed, were killed or failed at any instant, an undisturbed run succeeds within the usual number of file operations and writes byte for byte what it would write on a pristine system; and the outputs of the other completed runs are untouched.",
  ["histories", "crash_points", "fault_sequences"],
  "every sequence of up to 6 runs over shared home, log, work and output directories, with crashes and faults in all but the last",
  "tests run each command once, in a clean tree",
  ["geec/api.py", "geec/cli.py", "geec/config.py"],
  [("home, log and output directories", "the only things a run leaves behind", "~/.config/geec, log/, output path")],
  [("no state is kept between runs; outputs are replaced", "geec/api.py, geec/cli.py")],
  ["csv files", "exit status", "number of file operations"])
p("C08", "Results are reproducible: same inputs, same bytes",
  "The bytes of the output file depend only on the configuration and the input files: not on the clock, the process id, the randomness of the system, hash seeds, the working or output directory, the state of the global random generators, the machine (processors, load, names, user), the times of the files or leftovers of other processes.",
  ["schedules", "configurations", "histories"],
  "every pair of executions of one command under different clock, pid, entropy, hash seed, random generator state, output and log locations",
  "a test cannot vary entropy, clock and hash seed; the construction of a body holds a random fallback",
  ["geec/polyhedron.py", "geec/cli.py", "geec/api.py"],
  [("global random generators", "must not matter", "numpy.random")],
  [("orientation of faces decided from the centroid", "geec/polyhedron.py Polyhedron._get_faces")],
  ["bytes of the csv file"])
p("C09", "Commands running at the same time do not disturb each other",
  "When several commands run at the same time, sharing home, log, working and output directories, each of them succeeds and each output file is complete and right, even if another one is killed meanwhile; when several write the same output file, it ends up with the complete results of one of them.",
  ["schedules", "crash_points"],
  "every interleaving of the file operations of 2 or 3 processes, with a kill of one at any of them",
  "no test runs two commands at a time",
  ["geec/api.py", "geec/cli.py", "geec/config.py"],
  [("shared directories", "created and written by all processes", "log/, ~/.config/geec, output directory")],
  [("unique temporary names and atomic rename", "geec/api.py replace_file"), ("one log file per process", "geec/api.py setup_logger")],
  ["exit statuses and csv files"])
p("C10", "Converting a dataset never loses track of where its points are",
  "Through any sequence of conversions (longitude range, ellipsoid height, geocentric, WGS84, local ENU), and whatever conversions failed or were interrupted at any instant, the coordinates of a dataset and its reference system keep denoting the same positions, the geoid height being added exactly once when asked for however often it is asked. A failed conversion leaves the dataset as it was, and datasets made from the same array or reference system do not influence each other, nor alter the array.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of conversions over datasets that may share arrays and reference systems, with an interruption or failure at any call boundary and retries",
  "the tests convert three points there and back once, cannot run here, and never fail a conversion",
  ["geec/dataset.py", "geec/crs.py", "geec/mass.py", "geec/observer.py"],
  [("coordinates and reference system of a dataset", "must agree", "geec/dataset.py Dataset.coords, Dataset.crs")],
  [("conversions return new points and a new reference system, stored together", "geec/dataset.py, geec/crs.py")],
  ["Dataset.coords, Dataset.crs", "the caller's array and reference system"])
p("C11", "A damaged or missing geoid grid only affects what needs it",
  "Whatever subset of the geoid grids is missing, unreadable, cut short or corrupt, commands that do not need them work and give the right results; a run that needs a damaged grid fails (or still gives the right results), and never uses another datum, or no correction, instead.",
  ["fault_sequences", "configurations"],
  "every combination of damage (missing, empty, cut short, bad header, I/O error at any read) over the three grids and every vertical datum",
  "no test has a missing or damaged grid (two are missing here, which stopped all of them)",
  ["geec/crs.py", "geec/dataset.py"],
  [("geoid grids", "opened on first use", "geec/data/geoids")],
  [("grid looked up by datum, opened on first use", "geec/crs.py LazyGeoid, VDATUMREF, ellipsoid_height")],
  ["exit status, csv file"])
p("C12", "Each parameter comes from the highest configuration layer that gives it",
  "For every parameter the value used is that of the configuration file given on the command line if it gives one, else of the user's own configuration file, else of the default one. A layer that is missing on the command line, unreadable or not valid makes the run fail: it is never silently skipped in favour of a lower one; invalid values (unknown reference system, ellipsoid or datum) are refused. Where the log of a run shows the parameters of the bodies and observers, it shows the values used.",
  ["configurations", "fault_sequences"],
  "every distribution of parameters over the three layers, and every I/O error, truncation or corruption of a layer",
  "no test has a user configuration file or a faulty one",
  ["geec/config.py", "geec/crs.py", "geec/dataset.py", "geec/mass.py", "geec/observer.py"],
  [("configuration sources", "ordered layers", "geec/config.py")],
  [("order in which sources are added", "geec/config.py _default_setup, setup")],
  ["csv file (which depends on every parameter), exit status"])
p("C13", "Elapsed times are the time elapsed, whatever happens to the clock",
  "The elapsed times reported during and at the end of a program are the time really elapsed since it started, never negative, whatever steps forwards or backwards the system clock makes meanwhile.",
  ["schedules", "fault_sequences"],
  "every sequence of waits, clock steps and intermediate reports, the final report being written even when the program ends with an error",
  "no test covers the timing module, and a test cannot set the clock",
  ["geec/timing.py"],
  [("start of the program", "reading of a clock", "geec/timing.py start")],
  [("monotonic clock", "geec/timing.py")],
  ["log messages"])
p("C14", "Trouble with log files never changes or loses results",
  "When logs cannot be stored (full disk, I/O errors, directory that cannot be created or written), a run either gives exactly the results of a healthy run, or ends with a non-zero exit status and leaves the output file alone; a failing write to a log that is open never stops a run.",
  ["fault_sequences"],
  "every I/O error at every operation on the log directory and log file",
  "no test injects a failure of the log file",
  ["geec/api.py", "geec/cli.py"],
  [("log file", "diagnostics only", "log/geec_*.log")],
  [("errors of the log sink are caught by the logger", "geec/api.py setup_logger")],
  ["exit status, csv file"])
p("C15", "A command changes nothing but its output, its log and its own config folder",
  "Whatever happens during a command (success, failure, crash, interruption at any instant), the only files or directories it creates, changes or removes are its output file (with its parent directories), its log file and the user's configuration folder: configuration files, input files, grids and other results keep their bytes. Once it has ended by itself, with success or not, no temporary file of it remains (but an empty one if it was interrupted in the instant it created it).",
  ["crash_points", "fault_sequences"],
  "every operation that modifies the file system, in every run of the other simulations' fault space",
  "no test looks at anything but the exit status",
  ["geec/api.py", "geec/cli.py", "geec/config.py"],
  [("file system", "inputs are read-only to the program", "paths in the configuration")],
  [("inputs are opened read-only; temporary file removed on failure", "geec/dataset.py, geec/api.py")],
  ["trace of file operations", "content of the directories afterwards"])
p("C16", "Messages that cannot be shown never change or lose results",
  "When what a command shows cannot be shown (the reader of a pipe or the terminal is gone, the disk behind a redirection is full, a write would block or takes only a part, standard input, output or error are closed from the start), the command does its work all the same: a run writes exactly the results of a healthy run, a template is complete, and the exit status tells of nothing but lost messages. A run that must be refused is refused all the same and leaves the output file alone.",
  ["fault_sequences"],
  "every failure, once or lasting, at every write to standard output and error, and every combination of standard streams closed from the start",
  "tests run with all streams captured and healthy",
  ["geec/api.py", "geec/cli.py"],
  [("standard streams", "diagnostics only", "stderr, stdout")],
  [("errors of the message sink are caught by the logger; no sink without a stream", "geec/api.py setup_logger")],
  ["exit status, output file"])
p("C17", "Threads converting datasets at the same time get what they would get alone",
  "When several threads convert datasets at the same time, each its own, possibly made from the same array and reference system and needing the same geoid grid, every conversion gives the positions it would give alone, none fails or blocks forever because of another one (even one that fails: damaged grid, no memory), and all threads finish.",
  ["schedules", "fault_sequences"],
  "every interleaving of 2 to 4 threads at the instants at which the interpreter may switch in geec and in the interpolation of geoid heights, with damaged grids and memory failures",
  "no test uses threads; a mix-up needs a switch between two particular steps of two interpolations",
  ["geec/crs.py", "geec/dataset.py", "geec/mass.py", "geec/observer.py"],
  [("geoid models", "one per datum, shared by all datasets, opened on first use", "geec/crs.py VDATUMREF, LazyGeoid")],
  [("one interpolation at a time in a grid", "geec/crs.py LazyGeoid.__call__"), ("conversions return new points and a new reference system", "geec/crs.py")],
  ["Dataset.coords, Dataset.crs of each thread", "termination of all threads"])
p("C18", "A run uses one version of each file, even if it is replaced meanwhile",
  "When another program replaces the configuration file or a coordinate file by another valid version (in one step, by renaming) at any instant of a run, the run succeeds, and its results are those of one version of the configuration and of one version of the file of each body and of the observation points, never a mixture; the parameters shown in its log are those of the same version; when a file is removed meanwhile, the run gives such results or fails and leaves the output file alone.",
  ["schedules", "fault_sequences"],
  "every instant (file operation) at which one or several of the files are replaced or removed",
  "no test changes a file during a run",
  ["geec/cli.py", "geec/config.py", "geec/dataset.py", "geec/mass.py", "geec/observer.py"],
  [("configuration and coordinates", "read once, then kept in memory", "geec/config.py, geec/dataset.py")],
  [("each file is opened and read once", "geec/config.py setup, geec/dataset.py")],
  ["csv file, exit status"])
p("C19", "Forked processes get right results, always end, and disturb no one",
  "When a process that has used geec, and may at that instant be using it in another thread, forks others (as multiprocessing does on Linux) that go on with its bodies and datasets, as they are or sent as pickles, then every field and every conversion, in the forked processes and in the first one, is the one a process alone would get, whatever the order in which they read the geoid grids and whichever are killed or meet a read error; none waits forever for a thread it does not have, and no dataset changes but by the conversions of its own process.",
  ["schedules", "fault_sequences", "crash_points"],
  "every instant of the forks, every interleaving of up to 3 forked processes at their instants and their reads of the geoid grids, with a second thread switched at the instants at which the interpreter may switch, kills and read errors",
  "no test forks; wrong heights need two processes at two particular reads, a wait without end needs a fork while another thread computes",
  ["geec/crs.py", "geec/polyhedron.py", "geec/dataset.py", "geec/station.py"],
  [("open geoid grids", "the position in the file is shared by forked processes", "geec/crs.py LazyGeoid"), ("locks", "may be held by a thread that the forked process does not have", "geec/crs.py LazyGeoid, geec/polyhedron.py _computing"),
   ("intermediate values on faces and edges", "copied as they are at the fork, or by pickle", "geec/polyhedron.py")],
  [("a forked process opens the grids again and has new locks", "geec/crs.py LazyGeoid._forget, geec/polyhedron.py _renew_lock"), ("intermediate values are reset before each computation", "geec/polyhedron.py Polyhedron.get_gravity")],
  ["return values", "Dataset.coords, Dataset.crs in every process", "termination of all processes"])
p("C20", "An interrupted command stops, and every command ends",
  "A command that is interrupted (Ctrl-C) before it starts to write its output file stops: it ends with a status that tells of failure and leaves the output file as it was, whatever it was doing. And whatever fails, once or each time it is tried, a command ends by itself after a bounded number of operations: it never waits or tries again forever.",
  ["crash_points", "fault_sequences", "histories"],
  "every instant of an interruption, repeated interruptions, and every error of every kind of file operation that lasts",
  "no test interrupts a command or makes an operation fail",
  ["geec/cli.py", "geec/api.py", "geec/config.py", "geec/dataset.py", "geec/crs.py", "geec/polyhedron.py"],
  [("interruption", "an exception at any instant, passed on to the command line", "geec/cli.py, typer")],
  [("handlers of exceptions clean up and raise again", "geec/api.py replace_file, geec/crs.py LazyGeoid, geec/config.py")],
  ["exit status", "output file", "number of file operations"])
p("C21", "Commands and calls leave the process as they found it",
  "After any number of commands and library calls in one interpreter, whether each of them succeeded, failed, was interrupted or ran out of memory, the process is as it was before: the working directory, umask, environment, signal handlers and timers, threads and child processes, the settings of numpy (error handling, printing), pandas, locale, decimal, garbage collection and interpreter, and the state of the global random generators. The only files geec leaves open are the log of the last command and each geoid grid at most once, and neither log handlers nor exit handlers nor bodies, stations or masses of former commands pile up.",
  ["histories", "fault_sequences", "crash_points"],
  "every sequence of commands and library programs in one interpreter, with interruptions, errors and lack of memory at any instant of each",
  "the tests make single calls that succeed; what is left behind by one that is interrupted shows in the next ones only",
  ["geec/cli.py", "geec/api.py", "geec/config.py", "geec/crs.py", "geec/polyhedron.py", "geec/station.py", "geec/dataset.py", "geec/mass.py", "geec/observer.py"],
  [("process", "settings of the interpreter and its libraries, open files, handlers", "geec/api.py setup_logger, geec/crs.py LazyGeoid")],
  [("former handlers of the log are removed", "geec/api.py setup_logger"), ("a grid is opened at most once", "geec/crs.py LazyGeoid"), ("files are closed whatever happens", "geec/api.py replace_file")],
  ["state of the process"])
p("N01", "The field is equivariant under rigid motions and linear in density",
  "Moving, rotating or renumbering body and point together moves and rotates the field with them, and the field is proportional to density and gravity constant.",
  ["inputs"], "every body and point", "the tests cover one cube at one place",
  ["geec/polyhedron.py"], [], [("closed formula", "geec/polyhedron.py")], ["return values"])
p("N02", "The gradient is symmetric and satisfies Laplace's and Poisson's equations",
  "The gradient tensor is symmetric, its trace is zero outside the body and -4 pi G rho inside.",
  ["inputs"], "every body and point off its surface", "the tests look at the trace at one point, one-sidedly",
  ["geec/polyhedron.py"], [], [("closed formula", "geec/polyhedron.py")], ["return values"])
p("N03", "Coordinate conversions are inverse of each other to a stated precision",
  "Converting any point of the Earth's surroundings to another reference system and back gives it back to better than a millimetre.",
  ["inputs"], "every point", "three points are tested",
  ["geec/crs.py"], [], [("pymap3d", "geec/crs.py")], ["return values"])
p("N04", "A body is closed and its faces point outwards",
  "The faces of a body form a closed surface, all normals are unit vectors pointing outwards, and every edge has exactly one opposite twin.",
  ["inputs"], "every set of points in general position", "only the cube is tested",
  ["geec/polyhedron.py"], [], [("convex hull and orientation by the centroid", "geec/polyhedron.py Polyhedron._get_faces")], ["Polyhedron.faces"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
