# Executed by mkmeta.py.  # noqa
# pylint: disable=undefined-variable

TOOLS = ('The check runs the tool on corpus, exhaustive small, random and '
         'renamed programs (VERIF_SEED) and TLC judges each answer. TLC and '
         'the test drivers are trusted.')

prop('C14', 'The program generator lists the leaves of the normal-form tree',
     'For at least two states and two colors, the generator of the compiled '
     'extension yields exactly the programs reached by starting from 1RB on '
     'the blank tape, running until an undefined slot is met, and filling '
     'it in with every instruction whose state and color are used already '
     'or are the next unused ones. A branch ends where one slot is left '
     '(halting) or none is, where a run spins out, erases the tape or '
     'exceeds the given number of moves from one open slot to the next. '
     'Branches that do not use the last state or the last color are left '
     'out, and no program is yielded twice.',
     ['programs', 'schedules'],
     'all numbers of states and colors, both halting modes and all limits '
     '(a sweep in one state counts as one move), whatever the order in '
     'which the branches are searched',
     'The tests pin counts for a few sizes and one limit through an '
     'extension the test environment cannot build.',
     ['src/tree.rs', 'src/tape.rs', 'src/instrs.rs'],
     [('tree search', 'src/tree.rs'), ('open slots', 'src/tree.rs branch')],
     'c14.py', 'TLA+ specification of the tree; TLC enumerates its leaves',
     'Small trees are compared whole, larger ones by sampling in both '
     'directions. ' + TOOLS)

prop('C15', 'Programs are read and shown as they are written',
     'For every program of at most 25 states and 10 colors, reading its '
     'text gives the instruction written at each slot and undefined slots '
     'as undefined, in the Python parser and in the compiled one, and '
     'showing what was read gives the text back. The compact notation '
     'stands for the same program, and the numbers of states and colors '
     'are those written.',
     ['programs', 'inputs'],
     'all transition tables, with any undefined slots',
     'Tests read a few hundred fixed programs of few sizes.',
     ['tm/parse.py', 'tm/show.py', 'src/instrs.rs', 'tools/__init__.py'],
     [('parser', 'tm/parse.py'), ('display', 'tm/show.py'),
      ('compiled parser', 'src/instrs.rs')],
     'c15.py', 'TLA+ specification of the notation; TLC checks recordings',
     'One record per transition table in spec/Notation.tla. ' + TOOLS)

prop('C16', 'Normal forms only rename, and identically for all renamings',
     'For a program whose first instruction prints a mark and leaves the '
     'start, whose states are all reachable, whose colors are all printed '
     'and whose rows and columns are not all undefined, the normalizer '
     'returns the program with states, colors and directions renamed, and '
     'returns a normal form unchanged. Up to three colors all such '
     'renamings have the same normal form, and the tree normalizer likewise '
     'numbers states and colors in the order the run from the blank tape '
     'meets them, when it meets them all.',
     ['programs', 'inputs'],
     'all such programs and all renamings of their states and colors',
     'Tests compare fixed pairs of programs; renamings of one program are '
     'as many as permutations.',
     ['tools/normalize.py', 'tools/tree_norm.py'],
     [('normalizer', 'tools/normalize.py Normalizer'),
      ('tree normalizer', 'tools/tree_norm.py')],
     'c16.py', 'TLA+ specification of renamings; TLC checks recordings',
     'With four or more colors an order of first mention need not exist, '
     'so only the renaming is checked there. ' + TOOLS)

prop('C17', 'What is said about the graph of states is true of the program',
     'For every program whose instructions stay within its states, the '
     'graph has an arrow exactly where an instruction leads, and entry and '
     'exit points, reflexive states, connectedness and the derived flags '
     'are what these arrows imply. The reduced kernel is empty exactly when '
     'the reduction rules can empty the graph, and the connectedness test '
     'of the compiled extension is the same question of reaching.',
     ['programs', 'inputs'],
     'all programs of any number of states and colors',
     'Tests fix lists of programs with their flags.',
     ['tools/graph.py', 'src/graph.rs'],
     [('graph', 'tools/graph.py Graph'),
      ('connectedness', 'src/graph.rs is_connected')],
     'c17.py', 'TLA+ specification of the graph; TLC checks recordings',
     'One record per program in spec/ControlGraph.tla. ' + TOOLS)

prop('C21', 'Generated C programs and drawn graphs are the program\'s',
     'For every program of at most seven states whose instructions stay '
     'within its states, the generated C program, compiled and run, ends '
     'after the same steps with the same tape and marks as the machine '
     'does, provided that the machine stays within the generated tape. The '
     'drawn graph has exactly one arrow per instruction, in the color of '
     'the scanned symbol, for up to eight colors.',
     ['programs'], 'all programs that stop or erase their tape in time',
     'Tests compare the generated text of a few programs with stored '
     'files; that text is never run on other programs.',
     ['tools/c.py', 'tools/dot.py', 'machines/structured/machine.h'],
     [('C output', 'tools/c.py make_c'),
      ('graph output', 'tools/dot.py make_dot')],
     'c21.py', 'TLA+ machine; TLC judges what the compiled output did',
     'Each generated program is compiled with cc and its final tape is '
     'compared with a cell-by-cell run in spec/CMachine.tla. ' + TOOLS)

prop('C22', 'The C search machines print what the programs they read do',
     'For every fully defined program read, a search machine prints the '
     'program with its steps and marks exactly when the machine comes to '
     'the halting state, erases its tape or spins out within the limit '
     'compiled in, and is silent about the others. Lines come in the order '
     'of input, numbered as they were read, and it ends when its input '
     'does.',
     ['programs', 'histories'],
     'all inputs of any number of programs to machines/*.c',
     'Tests feed each machine a short fixed list.',
     ['machines/2-2.c', 'machines/3-2.c', 'machines/2-3.c',
      'machines/4-2.c', 'machines/2-4.c', 'machines/5-2.c'],
     [('read, run, print loop', 'machines/*.c main')],
     'c22.py', 'TLA+ machine; TLC judges every printed or missing line',
     'Programs are piped in batches; 2-4 counts a spin-out one step later '
     'in one state and either count is accepted. ' + TOOLS)

prop('C23', 'Instruction sequences list slots in the order a run meets them',
     'For every program starting with 1RB, each listed item names the slot '
     'the run from the blank tape comes to for the first time, the step at '
     'which it does, and the program as far as it was known by then. No '
     'slot met is left out until all but one are listed, an undefined slot '
     'is met or the run spins out.',
     ['programs', 'histories'],
     'all programs whose run meets one of these ends',
     'Tests fix some sequences of known programs.',
     ['tools/instr_seq.py', 'tm/machine.py'],
     [('sequence', 'tools/instr_seq.py')],
     'c23.py', 'TLA+ machine; TLC follows the listing against the run',
     'Runs longer than the horizon are compared up to it. ' + TOOLS)

NUMS = ('Formulas are built with the real operations from random recipes '
        '(VERIF_SEED) over one base, with exponents of at least 10, small '
        'integer parts, positive factors and exact quotients. TLC and the '
        'test drivers are trusted.')

prop('C18', 'Arithmetic on formulas keeps their value',
     'For every two formulas built from powers of one base (exponents of at '
     'least 10, integers, or formulas again), small integers, sums, '
     'products and exact quotients, the sum, difference, product, negation '
     'and exact quotient that the arithmetic for huge counts returns stands '
     'for exactly that number, unless it declines.',
     ['inputs'],
     'all such formulas, however high their towers of exponents are',
     'Tests look at a few hundred fixed formulas; simplification rules '
     'combine without limit.',
     ['tm/num.py'],
     [('sums', 'tm/num.py Add'), ('products', 'tm/num.py Mul'),
      ('quotients', 'tm/num.py Div'), ('powers', 'tm/num.py Exp')],
     'num.py C18', 'TLA+ specification of exact values; TLC checks '
     'recorded results', 'Values are compared exactly over the one base in '
     'spec/Num.tla, and by residues. ' + NUMS)

prop('C19', 'Residues of formulas are those of the numbers',
     'For every formula of the kind described for arithmetic and every '
     'modulus below 46341, the remainder reported is that of the number, '
     'and divmod returns the quotient that goes with it, unless the '
     'computation declines.',
     ['inputs'],
     'all such formulas and moduli',
     'Tests look at fixed formulas and moduli; residues of towers go '
     'through chains of exponents and moduli.',
     ['tm/num.py'],
     [('residues of powers', 'tm/num.py Exp.__mod__'),
      ('tables of residues', 'tm/num.py exp_mod_special_cases'),
      ('residues of quotients', 'tm/num.py Div.__mod__')],
     'num.py C19', 'TLA+ specification of residues; TLC checks recorded '
     'results', 'Residues are computed with Euler\'s theorem in '
     'spec/Num.tla. Exponents go through all residues of the moduli with '
     'tables. ' + NUMS)

prop('C20', 'Formulas are ordered like the numbers they stand for',
     'For every two formulas of the kind described for arithmetic whose '
     'integer factors and parts are below 1000 in size, the comparisons '
     'answer as the numbers they stand for compare, unless they decline. '
     'Formulas said to be equal stand for the same number and a formula is '
     'equal to itself.',
     ['inputs'],
     'all such pairs of formulas and of a formula and a small integer',
     'Tests compare a few pairs; an order has to hold for all of them, '
     'also for nearly equal ones.',
     ['tm/num.py'],
     [('order of powers', 'tm/num.py Exp.__lt__'),
      ('order of sums', 'tm/num.py Add.__lt__'),
      ('order of products', 'tm/num.py Mul.__lt__')],
     'num.py C20', 'TLA+ specification of exact order; TLC checks recorded '
     'answers', 'Signs of differences are decided exactly in '
     'spec/Num.tla. ' + NUMS)

prop('C24', 'Proved rules are kept with all they depend on and used only '
     'where they fit',
     'When the prover remembers a rule, the machine really makes the round '
     'the rule describes from the tape it was proved on, and the window '
     'kept with the rule takes in every block that round depended on and '
     'the ends of the tape it came upon, also when other rules were used to '
     'prove it. Later the prover takes a rule from its memory exactly when '
     'one fits: same state, same scanned color, the same colors and the '
     'same single-cell blocks throughout the window, and the end of the '
     'tape where the window has it. Of several that fit it takes the one '
     'remembered first.',
     ['histories', 'configurations'],
     'all programs, all tapes and all memories, in the Python prover and '
     'the compiled one',
     'Tests run programs whose end is known; a rule used one block too far '
     'needs a tape that differs exactly where the window ends.',
     ['tm/prover.py', 'src/prover.rs', 'tm/tape.py', 'src/tape.rs'],
     [('use of remembered rules', 'tm/prover.py Prover.get_rule'),
      ('windows', 'tm/prover.py Prover.get_min_sig'),
      ('the compiled prover', 'src/prover.rs Prover')],
     'c24.py', 'TLA+ specification of the memory and of the round a rule '
     'describes; TLC judges recorded runs and made-up memories',
     'The memory is a private part of the prover; where its functions '
     'cannot be reached that half is counted and skipped. Rounds are '
     'followed for 1500 steps (thorough 8000). ' + WHOLE)

prop('C25', 'Rules are tried from regular sightings',
     'The prover is told the cycles at which it sees a tape of one shape in '
     'one state. From five sightings on it answers exactly when the last '
     'five follow next = k * this + p with one k in 1 to 4 (the smallest '
     'such counts) and p growing by one amount, and when the three that '
     'follow are in order; the answer is the distances to these three from '
     'the last sighting, each from the one before. Sightings of other '
     'states do not count, and forgetting those of one state starts it '
     'over and leaves the others as they are.',
     ['histories'],
     'all sequences of sightings of any states and forgettings, with '
     'cycles for which the three that follow stay below 2^31',
     'Tests have a few sequences of one state.',
     ['src/prover.rs', 'tm/prover.py'],
     [('sightings', 'src/prover.rs PastConfigs')],
     'c25.py', 'TLA+ specification of sightings; TLC judges recorded '
     'answers',
     'All patterns of four distances 1 to 5, random ones, and those of '
     'real runs. The first sighting of a state other than the one it '
     'began with may count once or twice. ' + WHOLE)

prop('C26', 'The suggested block size is the one that fits best',
     'The block size suggested for a program and a number of cycles is the '
     'smallest k below half the cells of the tape for which writing down '
     'only once a piece of k cells that is the same as the next one takes '
     'the least room; the tape is that of one cycle after it first has the '
     'most blocks within those cycles. It is 1 when the machine meets an '
     'undefined slot or spins out within them.',
     ['programs'],
     'all programs and all numbers of cycles (a sweep over a block of the '
     'color scanned is one cycle)',
     'Tests pin the suggestion for a few programs through an extension the '
     'test environment cannot build.',
     ['src/blocks.rs', 'src/tape.rs'],
     [('choice of the size', 'src/blocks.rs opt_block'),
      ('choice of the tape', 'src/blocks.rs measure_blocks')],
     'c26.py', 'TLA+ specification of the choice; TLC judges recorded '
     'answers', 'Up to 220 cycles (thorough 1200). ' + WHOLE)

prop('C27', 'Tapes stay exact when their counts are too large to write out',
     'For every tape of the Python machine whose block lengths are formulas '
     'or huge integers, a step moves, joins and shortens blocks so that '
     'each length is the number it should be, and the marks are their sum. '
     'Applying a rule changes each length as the reported number of rounds '
     'would one after the other, and that number is the largest that leaves '
     'every shrinking block nonempty (none when there is no such round, and '
     'then the tape stays as it is). A rule inferred from formulas '
     'reproduces the four samples it was made from. Anything may be '
     'declined.',
     ['inputs', 'programs'],
     'lengths are formulas as described for arithmetic, over one base for '
     'exact judgement and over several by residues; integers of 1000 and '
     'more do not shrink beside formulas that do',
     'The lengths are towers of powers: tests pin the text of final tapes '
     'for some programs, not what a round does to any tape.',
     ['tm/rules.py', 'tm/tape.py', 'tm/num.py', 'tm/machine.py'],
     [('rounds', 'tm/rules.py count_apps'),
      ('closed forms', 'tm/rules.py apply_rule, apply_mult, apply_ops'),
      ('inference', 'tm/rules.py calculate_diff, calculate_op_seq'),
      ('steps', 'tm/tape.py Tape.step')],
     'c27.py', 'TLA+ specification of tapes with formulas for lengths; TLC '
     'judges recorded steps, applications and inferences exactly',
     'Made tapes and rules, and what happens in runs of 89 programs whose '
     'counts become formulas (up to 120 events each, thorough 1500). '
     + WHOLE)

prop('C28', 'A formula is written and sized as the number it stands for',
     'For every formula of the kind described for arithmetic, the text it is '
     'written as, read by the usual rules of arithmetic, is that number '
     '(unless it has more than 120 numbers in it), and so are the digits '
     'when it is spelled out as an integer. Integers of up to 12 places are '
     'shown in full, longer ones by sign and nearest power of ten. Powers '
     'made of any whole number are powers of that number. For positive '
     'formulas that are seen to be large, the number of places and the '
     'estimated power of ten are right to within one place for each number '
     'in the formula, and the estimated tower to within one story.',
     ['inputs'],
     'all formulas of the domain of C18; towers of ten for estimates as '
     'towers; exponents written out below 10^9',
     'Tests pin the text and the estimate of some formulas.',
     ['tm/num.py', 'tm/machine.py', 'tm/tape.py'],
     [('text', 'tm/num.py __repr__, show_number'),
      ('size', 'tm/num.py digits, estimate'),
      ('powers', 'tm/num.py make_exp')],
     'c28.py', 'TLA+ specification of reading formulas, of decimals and of '
     'towers; TLC judges texts, digits and estimates',
     'Formulas of random recipes, towers of tens, long sums, integers '
     'around the powers of ten, powers of squares. ' + WHOLE)

prop('C29', 'The quick check knows just the runs that repeat themselves',
     'For every program starting with 1RB and every limit, the quick check '
     'says that the run goes on for ever only when, within the limit, it '
     'spins out or comes to a configuration that repeats an earlier one: '
     'the same state, and the same cells wherever the head is between the '
     'two, shifted or not, and everywhere ahead. It never says so of a run '
     'that halts within the limit. It does say so whenever the run spins '
     'out within the limit, and whenever a repetition is complete within a '
     'quarter of the limit. Moves in one state over equal cells count as '
     'one.',
     ['programs', 'configurations'],
     'all programs whose first instruction is 1RB and all limits',
     'Tests use the check as a filter on known lists; which of all runs are '
     'recognised, and when, is not looked at.',
     ['src/machine.rs', 'src/tape.rs'],
     [('recurrence check', 'src/machine.rs quick_term_or_rec'),
      ('repetition', 'src/tape.rs aligns_with, get_slice')],
     'c29.py', 'TLA+ specification of repeating runs; TLC runs the machine '
     'and judges the answers at chosen limits',
     'Random, corpus and mutated programs, as many of each kind and time of '
     'repeating, spinning out and halting up to 256 cycles (thorough 512). '
     + TOOLS)

prop('C30', 'Backward reasoning answers what the search backward shows',
     'For every program, depth and goal (coming to an undefined instruction, '
     'erasing the last mark, spinning out), backward reasoning answers with '
     'the number of steps back before which nothing can have been, when the '
     'level-by-level search through all instructions that can lead to a '
     'configuration comes to such a level within the depth, and with 0 when '
     'the program has no such goal. It gives no answer just when the depth '
     'is used up or the search has come to blanks in the start state, to an '
     'instruction that may have been repeated at the edge of what is known, '
     'to more than 46 configurations in a level, or to a second repetition '
     'in one line of descent.',
     ['programs', 'configurations'],
     'all programs, depths and goals',
     'Tests pin answers for fixed lists; unsound claims would be rare and '
     'missing ones would only make the lists of holdouts longer.',
     ['src/reason.rs', 'src/tape.rs'],
     [('search', 'src/reason.rs cant_reach, get_valid_steps, step_configs'),
      ('steps back', 'src/reason.rs Backstepper'),
      ('repetitions', 'src/reason.rs lin_rec; src/tape.rs aligns_with')],
     'c30.py', 'TLA+ specification of the backward search; TLC carries it '
     'out and compares the answers at several depths',
     'Some 18,000 programs and goals, among them 600 chosen because their '
     'search runs out late or is wide, and mutants of these; depth 30 '
     '(thorough 40). ' + TOOLS)

prop('C31', 'Segment analysis answers what the windows show',
     'For every program, segment analysis answers with the first window '
     'size, from 2 cells on, that shows the machine never to halt: from '
     'blanks and with nothing known of the tape outside, for each state '
     'with an undefined instruction there is a place (on a cell, or outside '
     'on the left or right) where the machine can not come to halt in it, '
     'or the run from blanks goes on within the window for ever. It gives '
     'no answer just when the run from blanks halts within a window, no '
     'window up to the given size shows it, or thousands of configurations '
     'have been seen.',
     ['programs', 'configurations'],
     'all programs and sizes, as far as a window has fewer than 4000 '
     'configurations',
     'Tests pin answers for fixed lists of programs.',
     ['src/segment.rs', 'src/lib.rs'],
     [('search', 'src/segment.rs all_segments_reached'),
      ('leaving and coming back', 'src/segment.rs branch_in, branch_out'),
      ('window', 'src/segment.rs Tape, run_to_edge')],
     'c31.py', 'TLA+ specification of a machine in a window; TLC closes the '
     'set of configurations and compares the answers',
     'Windows of up to 7 cells (those with few enough configurations), '
     '2400 programs (thorough more and wider). ' + TOOLS)

prop('C32', 'The prover proves what its method shows, and uses it',
     'An accelerated run is determined cycle by cycle. Before each move the '
     'first remembered rule that fits the tape is applied, as often as every '
     'block it shrinks keeps at least one cell. Otherwise the sighting of '
     'the tape is noted, and when the sightings in this state are regular '
     'the run is carried on, with the rules there are, to where the next '
     'three should be: if it is there in the same state with the same '
     'colors each time and the counts change by a rule, that rule is '
     'remembered and used at once; if it shrinks nothing, the run is said '
     'never to end. A rule that only shifts one block to the other side is '
     'left out. So the kind, cycle, step and slot of the end, the number of '
     'uses of rules, the steps, the marks and the blank tapes noted are those '
     'the method gives, in Machine.run (where a step is given as -1 once a '
     'rule was used, and which also runs macro machines) and in run_prover: '
     'no proof is missed, none is made early, and no other end is '
     'reported.',
     ['programs', 'histories'],
     'all programs and limits, as far as rules only add',
     'Tests pin results of known programs. A prover that misses proofs is '
     'still sound, and ends most of them the same way, later.',
     ['tm/machine.py', 'tm/prover.py', 'src/machine.rs', 'src/prover.rs',
      'src/rules.rs', 'src/tape.rs'],
     [('run', 'tm/machine.py Machine.run; src/machine.rs run_prover'),
      ('proofs', 'tm/prover.py Prover.try_rule; src/prover.rs try_rule'),
      ('carrying a run on', 'tm/prover.py run_simulator; src/prover.rs '
       'run_simulator, get_min_sig')],
     'c32.py', 'TLA+ specification of the whole accelerated run; TLC carries '
     'it out and the end, tape, rules and windows are compared',
     'Some 700 programs, 400 of them with rules, for 300 cycles (thorough '
     'some 4000 for 600), counts below 20,000 and stretches below 4000. '
     + TOOLS)
