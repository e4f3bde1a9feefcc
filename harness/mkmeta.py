"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = []
CHECKS = []
NOT_APPLICABLE = []


def prop(pid, title, statement, over, text, why, files, mech, cmd,
         technique, note, level='model_checking'):
    PROPS.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': [
            {'name': n, 'where': w} for n, w in mech]}})
    if cmd:
        CHECKS.append({
            'property': pid, 'quick_cmd': f'python3 -B checks/{cmd}',
            'thorough_cmd': f'VERIF_TIER=thorough python3 -B checks/{cmd}',
            'evidence_file': f'evidence/{pid}.json',
            'technique': technique, 'level': level, 'level_note': note})


WHOLE = ('Programs: the repository\'s own, exhaustive small ones, random and '
         'mutated ones; sampled by VERIF_SEED. TLC is trusted; the Rust '
         'crate is compiled against a stand-in for pyo3.')

prop('C01', 'A plain Python run reports what the machine does',
     'For every program, running it with the Python machine without macros '
     'reports an undefined instruction (with its slot), a spin-out, an '
     'infinite rule or a step limit only when the machine started on the '
     'blank tape really does that. While no rule has been applied the '
     'reported step count, the number of marks and the first step at which '
     'the tape is blank in each state are exact.',
     ['programs', 'configurations'],
     'all programs of any size and all step limits, with the proving '
     'machinery switched on',
     'The tests pin the results of a fixed list of programs whose history '
     'is known; a defect that needs another transition table, tape shape '
     'or limit is not met.',
     ['tm/machine.py', 'tm/prover.py', 'tm/tape.py', 'tm/rules.py',
      'tm/parse.py'],
     [('simulation loop', 'tm/machine.py Machine.run'),
      ('rule prover', 'tm/prover.py Prover'),
      ('run-length tape', 'tm/tape.py Tape')],
     'c01.py', 'TLA+ machine specification; TLC judges recorded outcomes',
     'Every reported outcome is compared by TLC with a cell-by-cell run in '
     'spec/Outcome.tla up to a horizon; later ones are counted as beyond. '
     + WHOLE)

prop('C02', 'The compiled simulators report what the machine does',
     'For every program, the proving and the quick simulator of the '
     'compiled extension report an undefined slot, a spin-out or an '
     'infinite rule only when the machine started on the blank tape does '
     'that, and their result fields agree with one another. While no rule '
     'has been applied the step count, marks and first blank-tape steps are '
     'exact, and after rules have been applied the reported steps are a '
     'lower bound while the marks stay exact.',
     ['programs', 'configurations'],
     'all programs and step limits whose counts fit 64 bits',
     'The Rust side is only tested on pinned lists through an extension '
     'the test environment cannot even build.',
     ['src/machine.rs', 'src/prover.rs', 'src/tape.rs', 'src/rules.rs',
      'src/lib.rs', 'src/instrs.rs'],
     [('simulators', 'src/machine.rs run_prover, run_quick_machine'),
      ('rule prover', 'src/prover.rs'), ('tape', 'src/tape.rs')],
     'c02.py', 'TLA+ machine specification; TLC judges recorded outcomes',
     'As C01, for both compiled simulators. ' + WHOLE)

prop('C03', 'Every displayed row of an accelerated run is really reached',
     'When the Python machine is run with its tape displayed, every row it '
     'shows - after a single instruction, after a sweep over a block and '
     'after a proved rule has been applied any number of times - is a '
     'configuration the machine reaches from the row before it. Rows with '
     'a step count show that configuration at exactly that step.',
     ['programs', 'histories'],
     'all programs and all points of their runs whose block lengths are '
     'ordinary integers',
     'Tests look at final results only; a rule that is wrong in the '
     'intermediate tape but happens to end in the pinned numbers passes.',
     ['tm/machine.py', 'tm/prover.py', 'tm/rules.py', 'tm/tape.py'],
     [('rule application', 'tm/rules.py apply_rule'),
      ('rule proof', 'tm/prover.py try_rule'),
      ('display', 'tm/machine.py show_tape')],
     'c03.py', 'TLA+ trace validation of recorded runs with TLC',
     'Each recorded run is a trace that spec/ProverTrace.tla must accept, '
     'its own steps being silent. Runs of up to the horizon. ' + WHOLE)

prop('C04', 'The run-length tape is a faithful tape',
     'For every sequence of steps (any print, either direction, with or '
     'without sweeping), the Python tape and the compiled tape hold exactly '
     'the cells a plain tape would hold, report the number of cells the head '
     'moved over, and answer truthfully whether they are blank, how many '
     'marks they hold and whether the head is at an edge of the marks. Their '
     'blocks stay canonical: neighbours differ in color, none is empty and '
     'no outermost block is blank.',
     ['histories', 'inputs'],
     'all operation sequences from the blank tape and from any prepared tape',
     'Unit tests replay a few hand-written steps; merging and splitting of '
     'blocks depends on the whole history.',
     ['tm/tape.py', 'src/tape.rs'],
     [('step', 'tm/tape.py Tape.step'), ('step', 'src/tape.rs'),
      ('edge and blank', 'tm/tape.py, src/tape.rs')],
     'c04.py', 'TLA+ refinement (TLC, exhaustive) and trace validation',
     'TapeRle.tla is checked exhaustively to refine a plain tape within a '
     'bound and then judges every step of recorded histories of both '
     'implementations.')

prop('C05', 'The cells a rule relies on are all recorded',
     'While a candidate rule is being proved, the window of blocks recorded '
     'on each side covers every block whose cells were scanned or whose '
     'length or color was changed. No step reads a block outside the window '
     'it reports.',
     ['histories', 'inputs'],
     'all step sequences from all tapes',
     'The recorded window decides which tapes a rule is reused on; tests '
     'see it only through final results of pinned programs.',
     ['tm/tape.py', 'src/tape.rs'],
     [('touched blocks', 'tm/tape.py EnumTape'),
      ('touched blocks', 'src/tape.rs EnumTape')],
     'c05.py', 'TLA+ window specification; trace validation with TLC',
     'EnumTape.tla tracks which original blocks were involved; recorded '
     'histories of both implementations are judged step by step.')

prop('C06', 'Rules explain their samples and are applied in full',
     'A rule inferred from four samples of block lengths reproduces all of '
     'them and is inferred whenever all blocks change by constant amounts. '
     'Applying a rule on any tape changes each block exactly as the same '
     'number of single applications would, as often as possible while every '
     'shrinking block stays nonempty, and leaves the tape alone when the '
     'rule cannot be applied even once.',
     ['inputs'],
     'all samples and all block lengths that are ordinary integers (fitting '
     '64 bits in the compiled code), in both implementations',
     'Tests have a handful of rules and lengths; off-by-one errors depend '
     'on exact divisibility of lengths by the change.',
     ['tm/rules.py', 'src/rules.rs'],
     [('inference', 'tm/rules.py make_rule'),
      ('application', 'tm/rules.py apply_rule'),
      ('compiled rules', 'src/rules.rs')],
     'c06.py', 'TLA+ rule specification; TLC judges recorded results',
     'Rule.tla iterates single applications and compares. Lengths up to '
     '10^9.')

prop('C08', 'A macro machine is its base machine seen through a window',
     'For every program, each instruction of a block macro, of a back-symbol '
     'macro or of the two combined is what the base machine does on the '
     'cells of that window until it leaves it; when the base machine loops '
     'or stops inside, the macro says so. A Python run with any macro '
     'reports an undefined slot only if the base machine reaches that slot, '
     'and a spin-out or infinite rule only if the base machine runs for '
     'ever.',
     ['programs', 'configurations'],
     'all programs, block widths and numbers of back symbols; block macros '
     'of the compiled code too',
     'Tests only compare final results of pinned programs under macros '
     'chosen for them.',
     ['tm/macro.py', 'src/macros.rs', 'tm/machine.py'],
     [('window run', 'tm/macro.py MacroProg'),
      ('window colors', 'tm/macro.py BlockMacro, BacksymbolMacro'),
      ('compiled macros', 'src/macros.rs')],
     'c08.py', 'TLA+ window machine; TLC judges macro instruction tables',
     'MacroWindow.tla runs the base machine inside the window for every '
     'macro instruction asked for; whole macro runs go to Outcome.tla. '
     + WHOLE)

REASON = ('Claims of the reasoner at several depths are compared with the '
          'facts Facts.tla establishes by running the machine; refutation '
          'needs the event within the horizon, so programs whose event '
          'comes late are sought out. ' + WHOLE)
DOM = ('programs in which every state entered and every color printed has '
       'at least one instruction')

prop('C09', 'A machine said never to halt never halts',
     'For every program in which an instruction reachable from the start '
     'leads back to the start state and every state entered and color '
     'printed has at least one instruction, when backward reasoning at any '
     'depth says the program cannot halt, the machine started on the blank '
     'tape never comes to an undefined instruction.',
     ['programs', 'configurations'],
     'all such programs and all depths',
     'The tests check lists of known holdouts; soundness for any other '
     'program or depth is not sampled.',
     ['src/reason.rs', 'src/tape.rs'],
     [('backward search', 'src/reason.rs cant_reach')],
     'reason.py C09', 'TLA+ machine facts (TLC) refute reasoner claims',
     REASON)

prop('C10', 'A machine said never to erase its tape never erases it',
     'For every program in the domain described for halting, when backward '
     'reasoning at any depth says the program cannot blank its tape, the '
     'machine started on the blank tape never erases the last mark.',
     ['programs', 'configurations'], DOM + ' and the start is led back to',
     'The tests check fixed lists only.',
     ['src/reason.rs', 'src/tape.rs'],
     [('backward search', 'src/reason.rs cant_reach')],
     'reason.py C10', 'TLA+ machine facts (TLC) refute reasoner claims',
     REASON)

prop('C11', 'A machine said never to spin out never spins out',
     'For every program in the domain described for halting, when backward '
     'reasoning at any depth says the program cannot spin out, the machine '
     'started on the blank tape never runs off over blank cells in one '
     'state.',
     ['programs', 'configurations'], DOM + ' and the start is led back to',
     'The tests check fixed lists only.',
     ['src/reason.rs', 'src/tape.rs'],
     [('backward search', 'src/reason.rs cant_reach')],
     'reason.py C11', 'TLA+ machine facts (TLC) refute reasoner claims',
     REASON)

prop('C12', 'A machine excluded by segment analysis never halts',
     'For every program in which every state entered and color printed has '
     'at least one instruction, when segment analysis up to any number of '
     'segments says the program cannot halt, the machine started on the '
     'blank tape never comes to an undefined instruction.',
     ['programs', 'configurations'], DOM + ', and all segment limits',
     'The tests check fixed lists only.',
     ['src/segment.rs', 'src/lib.rs'],
     [('segment search', 'src/segment.rs')],
     'reason.py C12', 'TLA+ machine facts (TLC) refute reasoner claims',
     REASON)

prop('C13', 'A quick verdict of recurrence is never given to a halting run',
     'For every program starting with 1RB, when the quick check within any '
     'step limit says that the run terminates without halting or repeats '
     'for ever, the machine started on the blank tape never comes to an '
     'undefined instruction.',
     ['programs', 'configurations'],
     'all programs whose first instruction is 1RB and all limits',
     'The tests use it only as a filter on known lists.',
     ['src/machine.rs', 'src/lib.rs', 'src/tape.rs'],
     [('recurrence check', 'src/machine.rs quick_term_or_rec')],
     'reason.py C13', 'TLA+ machine facts (TLC) refute verdicts', REASON)

# -- more are added below as they are built --
MORE = os.path.join(VERIF, 'harness', 'mkmeta_more.py')
if os.path.exists(MORE):
    exec(compile(open(MORE, encoding='utf-8').read(), MORE, 'exec'))  # pylint: disable=exec-used

with open(os.path.join(VERIF, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in PROPS:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump({
        'version': 1,
        'setup_cmd': 'python3 -B harness/build.py && '
                     'python3 -B harness/build.py inner && '
                     'python3 -B harness/build.py prover',
        'checks': CHECKS, 'not_applicable': NOT_APPLICABLE,
        'notes': 'No hooks: everything needed is reachable through the '
                 'public interface, or through modules appended to a copy '
                 'of the crate when it is built (harness/build.py). '
                 'properties.jsonl and this file are written by '
                 'harness/mkmeta.py.'}, f, indent=1)
