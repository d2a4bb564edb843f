# Solver-based checking of aksharamukha

## The method

The library is a pipeline of pure string rewriting: `transliterate.process` runs a text through `str.replace`, `re.sub`
and table look-ups.  `symx/` executes that real code symbolically:

* every run loads the modules of `/repo/aksharamukha` from the current sources with the AST rewritten
  (`symx/instrument.py`): string operations, `re` calls, subscripts, comparisons, membership tests and branches go
  through hooks in `symx/rt.py`.  Nothing else about the code is modelled; tables, options, imports and
  exceptions are the real ones.  A construct the engine cannot follow makes the job *undecided*, never *passed*.
* a symbolic text is a sequence of constants and variables.  A variable ranges over a finite domain of strings (for
  instance all 3377 well-formed aksharas of the Devanagari alphabet), and is kept as a vector: position k of the vector
  is what the variable has become for the k-th domain value (`Cell` in `symx/core.py`).  A replacement or regular
  expression is applied once to all values of a variable; where a match depends on the neighbouring variables the
  engine splits into *regions* (boxes: products of subsets of the domains) or keeps guards.  The complete product of the
  domains is covered: the regions of each path partition it.
* branches of the program on symbolic data fork paths; z3 decides the feasibility of path conditions.
* a property returns equalities between symbolic texts.  `symx/vc.py` turns "the two texts differ somewhere in this
  region" into one z3 query over the domain variables (finite-domain integers and their membership/table constraints),
  together with the region constraint and the exclusions the property states.  UNSAT for every region: the property holds for
  every value within the bounds.  SAT: the model is decoded, the *uninstrumented* library is run on that text in the same process
  tree, and only if the real library shows the same difference is `VIOLATION` printed with a replay file.
* validation of the encoding: in each job some points are drawn from z3 models of the regions and the
  uninstrumented library must produce exactly the text the symbolic execution predicts ("replays agree"); a mismatch makes the
  check exit 3 (no verdict), as does a property none of whose jobs could be decided.

Evidence: `evidence/<id>.json` lists functions encoded, bounds, jobs, regions, queries, solver time, undecided jobs.

Why this reaches what tests cannot: a single job of two free aksharas in a context covers about 11 million texts; the
interaction of neighbouring letters through ~100 sequential global replacements is exactly what the handful of stored sample
texts (two Sanskrit texts without nukta, southern letters, candra vowels) does not contain.

## Bounds

Stated per property in `BOUNDS` of `props/cXX.py` and copied to the evidence: number of free aksharas (2 over the whole alphabet,
3 over a reduced one; more in thorough), the fixed contexts around them, the scripts and options.  Longer texts
are outside, except through the word-independence property.  Domains are finite lists by construction, so arbitrary Unicode is covered only
as far as the domains of the property list it.

PROPERTIES

## Genuine defects found

See `known_findings.txt`; each `fixed:` line names the commit in /repo.

## False alarms corrected on the way

* C01: ओं/ओँ (om) and eyelash ra are spelled alike with other texts by design: outside the domain.
* C04: stop+h and hiatus carry separators in the library: the tables alone do not determine the text, outside.
* C03: ZWNJ written between virama and nukta consonants (Sharada, Kannada, Grantha) is no letter: stripped before
  comparing in the jobs with nukta letters.

## Planted bugs

SEEDS
