#!/usr/bin/env python3
"""
Writes properties.jsonl and MANIFEST.json (run from anywhere):
the properties are listed here, a property is claimed when rkv/checks/ has a
check for it.
"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(i, title, statement, over, text, why, files, mech, observe=None,
        state=None, note=''):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w}
        for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w}
                for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append(({'id': i, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': a}, note))


V_ = 'librksv/verify.py'
R_ = 'librksv/receipt.py'
S_ = 'librksv/verification_state.py'
D_ = 'librksv/depparser.py'
K_ = 'librksv/key_store.py'
U_ = 'librksv/utils.py'
X_ = 'librksv/depexport.py'
TESTS = ('The suite replays about 800 fixed JSON scenarios through one '
        'generator and one verification call; ')

prop('C01', 'Every conforming DEP is accepted, with the right resulting state',
    'A data export (DEP) written by a conforming cash register, in an open or '
    'closed system, with any number of certificates, groups, signature devices, '
    'failures and turnover values, is accepted when the key material is '
    'complete. The verification returns the state the receipts imply: start and '
    'last receipt, turnover counter, pending restore receipt and the used '
    'receipt IDs.', ['inputs', 'configurations', 'histories'],
    'all conforming receipt histories x system types x certificate chains x '
    'trust anchors x counter sizes x ways to read the file',
    TESTS + 'they cannot show that no conforming register is ever rejected.',
    [V_, S_, D_, R_], [('verifyDEP / verifyParsedDEP', V_),
        ('verifyGroup', V_)],
    ['state written as JSON', 'no exception'])
prop('C02', 'No altered, forged or foreign receipt is accepted',
    'Changing any byte of any signed receipt (header, payload or signature), '
    'signing it with another key, or exchanging signatures between receipts '
    'makes verification fail. A receipt is only taken as signed if its '
    'signature verifies under a key the caller trusts; only the exact failure '
    'notice counts as "signature device out of order".',
    ['inputs', 'fault_sequences'],
    'every position and kind of alteration in every receipt of every DEP',
    TESTS + 'a handful of them contain one broken signature at a fixed place.',
    ['librksv/algorithms.py', V_, R_], [('ES256 verification',
        'librksv/algorithms.py'), ('signature check per receipt',
            'librksv/verify_receipt.py')], ['exception raised'])
prop('C03', 'Any deletion, insertion, reordering or duplication is detected',
    'The receipts of a register form one hash chain from its start receipt: '
    'leaving out, repeating, exchanging or inserting receipts, even properly '
    'signed ones, anywhere except cutting off the end is reported as an error, '
    'within a group as well as across group and file boundaries.',
    ['histories', 'fault_sequences'],
    'all edit operations on the receipt sequence at all positions',
    TESTS + 'only a few chain breaks at fixed positions are sampled.',
    [V_, 'librksv/algorithms.py'], [('chaining value comparison', V_),
        ('chain value computation', 'librksv/algorithms.py')],
    ['exception raised'])
prop('C04', 'The encrypted turnover counter must equal the exact running sum',
    'With the AES key, a DEP is accepted exactly if every standard receipt\'s '
    'decrypted counter equals the exact sum of all amounts (reversals included, '
    'training receipts excluded) up to and including that receipt, to the cent '
    'and for every counter size and sign. Without the AES key the counter never '
    'decides.', ['inputs', 'histories', 'configurations'],
    'all turnover histories up to the range of 5 to 16 byte counters; all '
    'deviations', TESTS + 'amounts are small, so rounding, overflow, sign '
    'extension and cancellation never matter.',
    [V_, R_, 'librksv/algorithms.py', U_], [('turnover check', V_),
        ('decryption and two\'s complement', R_),
        ('amount parsing', U_)], ['verdict', 'lastTurnoverCounter in state'])
prop('C05', 'Signature device failures follow the restore receipt protocol',
    'After the signature device has failed, the first receipt signed again must '
    'be a null receipt of standard type; accepted sequences of signed, unsigned, '
    'null, training and reversal receipts are exactly those the protocol '
    'automaton admits. A pending restore receipt is carried in the state to the '
    'next file.', ['histories', 'fault_sequences'],
    'all sequences over {signed, failed} x {null, turnover} x {standard, '
    'training, reversal}, split over files at any point',
    TESTS + 'which contain few failure sequences and no exhaustive ones.',
    [V_], [('need-restore handling', V_)],
    ['verdict', 'needRestoreReceipt in state'])
prop('C06', 'A register must begin with a valid signed null start receipt',
    'The first receipt of a register is accepted only if it is signed, has '
    'turnover zero, is a standard receipt and chains to its own register ID (or '
    'in a cluster to the previous register\'s start receipt). Every other first '
    'receipt is reported as the specific error.', ['inputs', 'histories'],
    'all combinations of signedness, type, turnover and chain value of the '
    'first receipt', TESTS + 'combinations are not enumerated.', [V_],
    [('start receipt checks', V_)], ['exception class'])
prop('C07', 'Register ID, system type and time never change or go backwards',
    'Within one register all receipts, across groups and files, have the same '
    'register ID and the same system type, and timestamps never decrease (equal '
    'ones are fine), for every representable date. Any deviation at any '
    'position is rejected.', ['inputs', 'histories'],
    'all positions, magnitudes and boundaries of deviation',
    TESTS + 'boundaries (equal seconds, year 1 and 9999) are not reached.',
    [V_], [('per receipt comparison with predecessor', V_)], ['verdict'])
prop('C08', 'A receipt ID is used at most once over all registers and files',
    'With the default policy a repeated receipt ID anywhere - in the same '
    'group, another group, another file or another register of the cluster - is '
    'rejected and distinct IDs never are. With the natural-sort policy exactly '
    'the strictly increasing IDs are accepted.', ['inputs', 'histories',
        'configurations'],
    'all sets of IDs (any Unicode), positions of the repetition, chunk and '
    'process layouts and both policies',
    TESTS + 'duplicates across work packages, files and registers are not '
    'sampled.', [V_, S_], [('used receipt ID backends', S_),
        ('merging of results of parallel work packages', V_)],
    ['verdict', 'usedReceiptIds in state'])
prop('C09', 'The verdict does not depend on how a DEP is read or parallelised',
    'For any DEP, valid or not, verdict and resulting state are the same for '
    'whole-file, incremental and streaming parsers, every chunk size, number of '
    'worker processes, order of JSON elements, and formatting of the file.',
    ['schedules', 'inputs', 'configurations'],
    'all DEPs x parser x chunk size x worker count x element order',
    'The suite verifies only with two fixed chunk sizes and one process and '
    'never uses the stream parser.', [V_, D_, S_],
    [('package building and merging', V_), ('chunk parsers', D_)],
    ['verdict and state for each layout'])
prop('C10', 'Verifying a DEP in instalments equals verifying it at once',
    'Cutting the history of a register at any receipt boundaries into several '
    'files, verifying them one after the other and carrying the state (saved '
    'and reloaded in between) gives the same verdict and final state as '
    'verifying one file.', ['histories', 'crash_points'],
    'all cut points, numbers of instalments, and defects on either side',
    TESTS + 'a few fixed cuts exist.', [V_, S_],
    [('state carried between calls', S_), ('continuation', V_)],
    ['verdict', 'final state'])
prop('C11', 'Cluster registers are linked and each keeps its own state',
    'In a closed system the start receipt of every further register must chain '
    'to the start receipt of the register before; registers may then be '
    'continued in any order, each with its own counter and chain, sharing only '
    'the used receipt IDs. Clusters of open systems, unknown register indexes '
    'and registers without a start receipt are refused.',
    ['histories', 'configurations'],
    'all interleavings of continuing and adding registers, correct and wrong '
    'links', TESTS + 'interleavings and wrong links are a few samples.',
    [V_, S_], [('cluster state', S_), ('start receipt in clusters', V_)],
    ['verdict', 'state'])
prop('C12', 'Only certificates leading to a trusted certificate are accepted',
    'A group is accepted only if walking from its certificate up the listed '
    'issuers, each link verified by its ECDSA or RSA signature, reaches a certificate from the '
    'key store; without that, with a wrong or missing link, or with a '
    'certificate whose serial number equals but whose content differs from a '
    'trusted one, verification fails with an error naming the certificates '
    'concerned. Damaged or unusual certificates give a '
    'documented error, never a crash.', ['inputs', 'configurations',
        'fault_sequences'],
    'all chain lengths x trust sets x breaks, swaps, omissions and bit flips',
    TESTS + 'chains with several links and partial trust are hardly sampled '
    'and damaged ones never.', [V_, U_, K_], [('certificate chain walk', V_),
        ('certificate signature check', U_)], ['exception class or verdict'])
prop('C13', 'A receipt is verified with exactly the key its serial denotes',
    'In a single unnamed group the key is looked up by the receipt\'s serial: '
    'hexadecimal, then decimal, any case, leading zeros or minus sign for open '
    'systems, exact key IDs for closed ones. In a group with a certificate the '
    'serial must denote that certificate; otherwise the receipt is rejected. '
    'Of several groups read together each must name its certificate.',
    ['inputs', 'configurations'],
    'all spellings of serials x key stores with near-collisions',
    TESTS + 'ambiguous and re-spelled serials are not sampled.',
    [V_, K_], [('serial to key ID mapping', K_),
        ('key selection per receipt', V_)], ['verdict'])
prop('C14', 'Receipt formats convert into each other without loss',
    'JWS, QR, OCR and CSV forms (and the link form\'s hash) of a signed receipt '
    'convert into each other and back to byte-identical text, and agree with '
    'independently built forms, so that signatures stay valid after any '
    'sequence of conversions. Blanks around the fields of a CSV line do not '
    'matter.', ['inputs', 'programs'],
    'all receipts (texts, amounts, types) x sequences of conversions',
    'The suite only reads JWS; the other formats are never exercised.',
    [R_, 'convert.py'], [('to*/from* conversions', R_)],
    ['returned strings'])
prop('C15', 'Malformed receipts are always reported, well-formed never',
    'Every string offered as a receipt in any of the formats is either parsed '
    'into a receipt that writes back what was read, or refused with a '
    'documented receipt error; nothing else ever happens, and it is accepted '
    'exactly if it follows the grammar of the specification.', ['inputs'],
    'arbitrary strings and grammar-aware mutations of valid ones',
    TESTS + 'parser errors are sampled a few times for one format.',
    [R_], [('field validation', R_)], ['exception class or parsed receipt'])
prop('C16', 'All DEP parsers deliver every receipt once, in order, in chunks',
    'Whatever the parser, chunk size and layout of the file, concatenating the '
    'delivered chunks gives exactly the receipts and certificates of each group '
    'in order; no chunk of a chunking parser holds more receipts than asked '
    'for, and empty groups are ignored.', ['inputs', 'configurations'],
    'all group structures x chunk sizes x element orders x sources',
    'The suite uses the file parser with two chunk sizes on well-behaved '
    'files only.', [D_], [('incremental state machine', D_),
        ('look-ahead for certificates', D_)], ['delivered chunks'])
prop('C17', 'Malformed DEP files always give a documented error',
    'For any bytes or JSON document given as a DEP, every parser either '
    'delivers its receipts or fails with a documented parsing or verification '
    'error; a structurally broken DEP is never accepted and no parser hangs or '
    'crashes. The error for a missing or mistyped element of a group names the '
    'element and the group, and parsers that read a file incrementally refuse '
    'repeated elements.', ['inputs', 'fault_sequences'],
    'arbitrary structure and byte mutations of DEP files, truncation at every '
    'position', 'Malformed files are a few fixed samples for one parser.',
    [D_, V_], [('structure checks', D_)], ['exception class'])
prop('C18', 'The key store behaves like a map and survives storage',
    'After any sequence of adding and removing certificates and public keys the '
    'key store answers lookups like an exact map, and writing and reading it, '
    'as JSON or INI, gives a store with the same answers. Malformed store files '
    'are reported with a documented error.', ['histories', 'inputs'],
    'all operation sequences x serialisation points; arbitrary damaged files',
    'No test ever modifies or writes a key store.', [K_],
    [('put/del/get', K_), ('JSON and INI I/O', K_)],
    ['lookups', 'written files'])
prop('C19', 'The verification state survives storage and admin operations',
    'After any sequence of state operations (adding, deleting, resetting, '
    'copying, presetting registers, verifying DEPs) the state equals a model, '
    'and saving and loading it changes nothing, including later verdicts. '
    'Malformed state files are reported with a documented error.',
    ['histories', 'crash_points', 'inputs'],
    'all operation sequences with save/load at any point; arbitrary damaged '
    'files', 'The suite only loads a state that was just saved.', [S_],
    [('state JSON', S_)], ['state JSON', 'later verdicts'])
prop('C20', 'Fast-forwarding a state over a DEP equals verifying it',
    'For every DEP that verifies, building or updating a state from its '
    'receipts without verification gives the same state as verification does, '
    'with and without AES key, group by group and for all registers of a '
    'cluster.', ['histories', 'inputs'],
    'all conforming DEPs x start states x groupings',
    'Not exercised by any test.', [S_, 'verification_state.py'],
    [('update from DEP', S_)], ['state JSON'])
prop('C21', 'A state made from any receipt continues exactly after it',
    'A register state built from an arbitrary receipt of a conforming history '
    'accepts exactly the continuation of that history: the true next receipts '
    'verify, with the right counter, and any other next receipt is refused. '
    'The same holds for states built for a start receipt.', ['histories'],
    'all histories x cut points x correct and wrong continuations',
    'Only sampled for a few fixed cases.', [S_, V_],
    [('state from receipt', S_)], ['verdict', 'state'])
prop('C22', 'Exporting, merging, splitting and converting keeps every receipt',
    'Exporting a parsed DEP as JSON, dictionary or CSV, merging DEPs, '
    'splitting them and converting them back keeps each receipt, its order and '
    'its certificates, and the verdict of the result is that of the original. '
    'An exported JSON DEP can be read back by every parser, from a pipe in chunks '
    'of any size as well.',
    ['inputs', 'programs'], 'all DEPs x pipelines of exporters, mergers and '
    'splitters', 'No test runs an exporter, merger or splitter.',
    [X_, D_, 'merge.py', 'split.py', 'convert.py'],
    [('exporters', X_), ('merging and splitting parsers', D_)],
    ['written text', 'verdict of the result'])
prop('C23', 'The cash register generator only writes conforming DEPs',
    'For every sequence of receipt instructions, register configuration and '
    'signature device behaviour, the generated receipts are byte for byte those '
    'an independent implementation computes (up to the ECDSA nonce), verify, '
    'and carry the requested defect when one was requested.',
    ['programs', 'histories', 'configurations'],
    'all instruction sequences x devices x failures x defect injections',
    'Generator and verifier are only tested against each other.',
    ['librksv/cashreg.py', 'librksv/sigsys.py', 'librksv/run_test.py',
        'demo.py'], [('register', 'librksv/cashreg.py'),
        ('signature systems', 'librksv/sigsys.py')], ['receipts'])
prop('C24', 'Turnover counter encryption is exactly the specified cipher',
    'For every key, register ID, receipt ID, counter and size, encryption gives '
    'AES-256-CTR of the big-endian two\'s complement under the specified IV, '
    'decryption inverts it, keys of other lengths and counters that do not fit '
    'are refused. Training and reversal receipts have no counter to decrypt.',
    ['inputs'], 'all keys, IDs (any Unicode), counters and sizes',
    'Only short ASCII IDs and small counters occur.',
    ['librksv/algorithms.py', R_, U_], [('encryption and IV',
        'librksv/algorithms.py')], ['returned values'])
prop('C25', 'Verifying a single receipt decides signature and form correctly',
    'A single receipt in any format verifies exactly if it is well-formed and '
    'its signature matches the key its serial denotes, with failed devices '
    'reported as such; the error names the receipt; a link matches a receipt exactly if the hash does.',
    ['inputs', 'configurations'], 'all receipts x formats x alterations x key '
    'stores', 'The suite only verifies receipts as part of a DEP.',
    ['librksv/verify_receipt.py', 'librksv/url_receipt_helpers.py'],
    [('receipt verifier', 'librksv/verify_receipt.py')],
    ['exception class or verdict'])
prop('C26', 'A failed verification leaves the given state untouched',
    'When verifying a DEP against a given state fails at any point, the passed '
    'state is exactly as before, so that the corrected file can be verified '
    'with it; a successful one does not alter the passed objects either.',
    ['fault_sequences', 'histories', 'crash_points'],
    'all states x defects at all positions x process layouts',
    'No test looks at the state after a failure.', [V_, S_],
    [('copy of the state before verification', V_)],
    ['state JSON before and after'])
prop('C27', 'Errors reach the caller unchanged, also from worker processes',
    'Every error a verification can raise keeps its class, message and details '
    'when it is passed between processes, so a parallel verification reports '
    'what the sequential one reports; an error about a receipt names the first '
    'receipt that is wrong.', ['inputs', 'schedules'],
    'all documented error classes x arguments x languages',
    'No test verifies with worker processes.', [V_, R_, D_, K_, S_, U_],
    [('exception reduction', R_)], ['exception class and text'])
prop('C28', 'The verification command mirrors the library verdict',
    'The verification command reports success, exit status 0 and the resulting '
    'state exactly if the library accepts the DEP with the same options, and '
    'otherwise fails with an error status and writes no state, for every '
    'combination of state, continuation, parallel, chunk size and key store '
    'options.', ['configurations', 'inputs'],
    'all command lines x DEPs x states', 'No test runs a command.',
    ['verify.py'], [('argument handling', 'verify.py')],
    ['exit status', 'standard output'])
prop('C29', 'The command line tools do what they document on every input',
    'Converting, merging, splitting, certificate extraction, image decoding, key store and '
    'state maintenance and single receipt commands give on every well-formed '
    'input exactly the result the library and the documentation define, chained '
    'in any order, and fail with an error status on malformed input without '
    'touching their data. An undocumented command line only shows the usage.', ['programs', 'inputs', 'histories'],
    'all sequences of commands x inputs', 'No test runs a command.',
    ['convert.py', 'merge.py', 'split.py', 'cert_extract.py', 'img_decode.py', 'key_store.py',
        'verification_state.py', 'receipt.py', 'verify_receipt.py'],
    [('scripts', 'top level')], ['standard output', 'exit status'])
prop('C30', 'The receipt server hands out exactly the stored receipts',
    'The receipt host answers a link hash with exactly the stored receipt that '
    'hashes to it and with "not found" for anything else; links, hashes and '
    'basic codes obtained through it verify.', ['inputs', 'histories'],
    'all receipt sets x requested paths and links', 'No test runs the server.',
    ['receipt_host.py', 'librksv/url_receipt_helpers.py'],
    [('lookup by hash', 'receipt_host.py')], ['HTTP answers'])
prop('C31', 'The message language never changes a verdict',
    'In every language the programs are translated to, verification gives the '
    'same verdict, error class and state, and every error message can be '
    'formatted for every input.', ['configurations', 'inputs'],
    'all languages x error situations', 'The suite runs in one language.',
    ['librksv/gettext_helper.py', 'lang'], [('gettext set-up',
        'librksv/gettext_helper.py')], ['verdict', 'message'])
prop('C32', 'The test case tools report exactly what the specification says',
    'For every test specification the test runner reports OK exactly when the '
    'outcome of the verification is the one the specification expects (error '
    'class, receipt, message, annotated turnover), FAIL when it is another one '
    'and ERROR when the specification can not be processed, a verifier with a '
    'fault never passes, and the exit status and summary say the same.',
    ['inputs', 'configurations'], 'all specifications x expectations x faulty '
    'verifiers', 'The suite uses the runner but never checks that it can fail.',
    ['librksv/test/test_verify.py', 'test_verify.py', 'run_test.py'],
    [('test runner', 'librksv/test/test_verify.py')], ['test result',
        'exit status'])
prop('C33', 'The graphical program shows exactly what the library decides',
    'Whatever the user does and in whatever order, the graphical program shows '
    'for a receipt, a DEP or a key store exactly what the library decides for '
    'the same data: "valid" only if the verification with the loaded key store '
    'and the entered key succeeds, an error dialog otherwise; a result is never '
    'shown for other data than it was computed from; the displayed receipt '
    'fields and the decrypted counter are the right ones; no error ends the '
    'program or leaves it waiting, and exports equal what was imported.',
    ['histories', 'inputs', 'configurations'], 'all sequences of user actions x '
    'files', 'No test starts the program; Kivy is not installed.',
    ['rktool.py', 'rktool.kv', 'img_decode.py'],
    [('widgets and worker', 'rktool.py'), ('layout and bindings', 'rktool.kv'),
        ('QR image decoding', 'img_decode.py')], ['displayed texts', 'dialogs',
        'exported file'])

TECH = {}


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p, note in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p, note in P:
        i = p['id']
        if os.path.exists(os.path.join(V, 'rkv', 'checks', i.lower() + '.py')):
            checks.append({'property': i,
                'quick_cmd': 'bin/check %s quick' % i,
                'thorough_cmd': 'bin/check %s thorough' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': TECH.get(i, 'property-based testing: generated '
                    'scenarios against an independent reference model, with '
                    'shrinking'),
                'level': 'exploration',
                'level_note': NOTES.get(i, 'Seeded random search; trusts the '
                    'simulator and reference verifier in rkv/, the '
                    'cryptography package and the interpreter. Says nothing '
                    'about inputs that were not generated.')})
        else:
            na.append({'property': i, 'reason': 'no check built yet'})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
            'not_applicable': na}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


NOTES = {}
if __name__ == '__main__':
    main()
