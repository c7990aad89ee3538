#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = ['inputs', 'histories']
OUT = []
def P(id, title, statement, over, text, why, files, mech, observe, state=(), level='exploration', tech='', note=''):
    OUT.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)),
        level, tech, note))

STX = 'src/commands/signtx/'
UNIT = 'The repository\'s unit tests only call library functions with a few fixed vectors; '
MODEL = 'whole application on an emulated SDK, every response and screen compared online with an executable specification; seeded stateful workloads'
NOTE = ('Bounded random exploration: holds on every execution run, not proved. Trusts the emulated SDK (emu/), the executable specification (lib/model.py) and the '
        'independent reference encodings and crypto (lib/ref.py).')

P('P01', 'A signature is for exactly the transaction that was streamed and shown',
  'Whenever the device returns a transaction signature, it is a valid Schnorr proof, under the public key of the path approved at the start, of exactly the canonical serialization of the inputs, data inputs, token list and outputs received in that session, in order, each once. How the data was cut into requests makes no difference. A transaction that is unfinished, or that differs in any byte from the one streamed, is never signed.',
  HIST, 'every transaction, every way of chunking it, every history of requests, including refused ones, before and during the session',
  UNIT + 'none of them goes through the command handlers, and the signing code is never executed by them at all.',
  ['src/ergo/tx_ser_full.c', 'src/ergo/tx_ser_box.c', 'src/ergo/tx_ser_input.c', 'src/ergo/schnorr.c', STX + 'operations/stx_op_p2pk.c'],
  [('streaming serialization straight into the hash', 'src/ergo/tx_ser_full.c'), ('commitment and response of the proof', 'src/ergo/schnorr.c'), ('commit before streaming, finish after confirmation', STX + 'operations/stx_op_p2pk.c')],
  ['the signature returned by "Confirm and Sign"'], [('serializer state', 'what part of the transaction is expected next', 'src/ergo/tx_ser_full.h')], tech=MODEL + '; signature verified over the independently serialized transaction', note=NOTE)
P('P02', 'Nothing is signed, exported or attested without approval; reject ends it',
  'A signature is only returned after the user approved, on the device, the signing request, every output that has to be shown, and the final summary, in that order. Rejecting any prompt, or failing to build one of its pages, answers with an error and ends the session, so that none of its later requests is accepted. Requests received while a prompt is open cannot approve, replace or dismiss it.',
  HIST, 'every history of requests and button presses, including rejections at any page and requests at any moment',
  UNIT + 'no test opens a prompt offline; the emulator-based end-to-end scripts are not part of the suite and approve in one fixed way.',
  [STX + 'stx_handler.c', STX + 'stx_ui.c', STX + 'operations/stx_op_p2pk.c', 'src/ui/ui_approve_reject.c', 'src/helpers/cmd_macros.h'],
  [('state machine of the session', STX + 'stx_handler.c'), ('approve/reject callbacks', STX + 'stx_ui.c'), ('busy flag', 'src/apdu_dispatcher.c')],
  ['responses to requests and to the final button press', 'the pages shown'], tech=MODEL, note=NOTE)
P('P03', 'Every output shown is shown truthfully and completely',
  'Each prompt for an output shows the recipient that is really going to be signed - the address of a standard public-key script for the network of the session, the script address otherwise, the change path, or the miners\' fee marker - and, except for change (where the question is about the path only), the exact amount of ERG, and every token with a non-zero amount, once, with its identifier and exact amount. All of this is reachable by browsing, in either direction, any number of times. It does not depend on how the output was cut into requests.',
  HIST, 'every output script, amount, token list, chunking and browsing order',
  UNIT + 'no test looks at a screen.',
  [STX + 'stx_ui.c', STX + 'stx_output.c', 'src/ergo/ergo_tree.c', 'src/ergo/address.c', 'src/ui/ui_dynamic_flow.c'],
  [('classification of the output script while it streams', STX + 'stx_output.c'), ('pages of an output', STX + 'stx_ui.c')], ['the pages of the output prompt'], tech=MODEL, note=NOTE)
P('P04', 'Only the owner\'s own change and the token-free fee pass without a prompt',
  'An output is accepted without asking only if it pays the standard miners\' fee script and carries no token, or if it goes back to a standard five-component address path of this device that either the user has just approved as change, with no other output prompt in between, or belongs to the account and chain of the signing path with an index below the signing index plus 20. Every other output, including any to a foreign script or carrying tokens in the fee, is shown for approval. A change output is paid to the public key derived on the device from the given path, never to bytes sent by the host.',
  HIST, 'every output and every sequence of outputs, silent ones, approved ones and rejected ones',
  UNIT + 'the decision is made in a handler no test calls.',
  [STX + 'operations/stx_op_p2pk.c', STX + 'stx_output.c', STX + 'stx_handler.c', 'src/common/bip32_ext.h'],
  [('decision to show an output', STX + 'operations/stx_op_p2pk.c'), ('comparison of paths', 'src/common/bip32_ext.h')], ['whether a prompt appears after the last part of an output'],
  [('last approved change path', 'change address the user approved last', STX + 'operations/stx_op_p2pk.h')], tech=MODEL, note=NOTE)
P('P05', 'The final summary tells what the transaction really does',
  'Before a signature, the summary shows the signing path, the ERG leaving the wallet (attested inputs minus change and fee), the total of the miners\' fee outputs, and, for every token whose attested inputs and outputs differ, its identifier and the exact difference, as burned if inputs exceed outputs and as minted otherwise. Tokens that balance are not listed. Amounts are printed exactly, over the whole 64-bit range.',
  HIST, 'every mix of inputs, tokens, change, fee and other outputs',
  UNIT + 'the balance logic and its display are never executed together by any test.',
  [STX + 'stx_ui.c', STX + 'stx_amounts.c', STX + 'operations/stx_op_p2pk.c'],
  [('running balances', STX + 'stx_amounts.c'), ('summary pages', STX + 'stx_ui.c')], ['the pages of the signing prompt'], [('balances', 'ERG, fee and per-token difference so far', STX + 'stx_amounts.h')], tech=MODEL, note=NOTE)
P('P06', 'Amounts never wrap around',
  'Sums of ERG, of fees and of tokens over a transaction are exact or the transaction is refused: nothing is signed or shown on the basis of an amount that overflowed, underflowed or changed sign. Amounts up to the limits of the 64-bit ranges are handled.',
  ['inputs', 'histories'], 'every combination of amounts, in particular around 2^63 and 2^64, spread over any number of inputs and outputs',
  UNIT + 'the arithmetic helpers are sampled at a few points, their use in the balances is not tested.',
  [STX + 'stx_amounts.c', STX + 'stx_amounts.h', STX + 'operations/stx_op_p2pk.c', 'src/common/safeint.h', STX + 'stx_ui.c'],
  [('checked addition and subtraction', 'src/common/safeint.h'), ('balances', STX + 'stx_amounts.c')], ['status words and summary pages'], tech=MODEL + ' at the limits of the ranges; UBSan', note=NOTE)
P('P07', 'Inputs are only taken from authentic frames of one box, in order',
  'An input of a transaction is accepted only as the complete set of frames this device attested since it was switched on, all of the same box, each once and in order, and unchanged in every authenticated byte. Anything else - a forged or damaged tag, a frame of another box, a repeated, skipped or reordered frame, a frame from before the last start - is refused and ends the session. Every genuine sequence of frames is accepted, and its amounts and tokens are the ones counted.',
  HIST, 'every sequence of genuine, mixed, replayed, truncated and altered frames',
  UNIT + 'frames are only parsed with one fixed content, and the authentication is not tested.',
  [STX + 'stx_handler.c', 'src/helpers/input_frame.c', 'src/ergo/tx_ser_input.c', 'src/ergo/tx_ser_full.c', 'src/commands/attestinput/ainpt_response.c'],
  [('keyed hash compared before use', STX + 'stx_handler.c'), ('frame order and box identity', 'src/ergo/tx_ser_input.c')], ['status words of "Add Input Box frame"', 'the summary'],
  [('attestation key', 'random per start, never leaves the device', 'src/app_main.c')], tech=MODEL + '; forged, mixed and replayed frames', note=NOTE)
P('P08', 'An attested box is described truthfully',
  'After a box has been streamed, the frames returned carry the identifier that the canonical serialization of exactly that box has, its exact value, and all its tokens with their exact amounts in order, at most four to a frame, under a correct keyed hash; each frame can be fetched any number of times. Frames are only available for a complete box, and never under a wrong session. How the box was cut into requests makes no difference.',
  HIST, 'every box within the documented limits, every chunking, every order of requests',
  UNIT + 'serialization is tested for one box, attestation not at all.',
  ['src/commands/attestinput/ainpt_handler.c', 'src/commands/attestinput/ainpt_response.c', 'src/ergo/tx_ser_box.c', 'src/common/gve.c'],
  [('box serializer', 'src/ergo/tx_ser_box.c'), ('frame builder', 'src/commands/attestinput/ainpt_response.c')], ['frames returned by "Get Attested Box frame"'], tech=MODEL + '; box identifier and tag recomputed independently', note=NOTE)
P('P09', 'Declared counts and sizes bind; limits are exact; well-formed data is accepted',
  'The number of inputs, data inputs, tokens and outputs and the size of every streamed script, register area and context extension that was announced is exactly what has to follow, in the documented order: anything more, less or out of order is refused and the session is over. The limits (20 distinct tokens, 32768 bytes per part) are enforced exactly. Every well-formed transaction or box within the limits is accepted.',
  HIST, 'every announced shape and every deviation from it, at any step',
  UNIT + 'the boundaries are sampled at a few values in one component at a time.',
  ['src/ergo/tx_ser_full.c', 'src/ergo/tx_ser_box.c', 'src/ergo/tx_ser_input.c', 'src/ergo/tx_ser_table.c', 'src/constants.h', STX + 'operations/stx_op_p2pk.c'],
  [('state and remaining counts', 'src/ergo/tx_ser_full.c'), ('remaining sizes', 'src/ergo/tx_ser_box.c')], ['status words'], tech=MODEL + '; boundary and out-of-order mutations', note=NOTE)
P('P10', 'A failed or finished session leaves nothing behind; sessions do not mix',
  'After an error, a rejection, a finished signature or the start of another command, requests of the earlier session are refused, and a request with a wrong session identifier is refused and ends the session. A session that follows any history behaves exactly as the same session on a freshly started device with the same approved application. No amount, path, token or output of an earlier session influences a later one.',
  ['histories', 'inputs'], 'every history before a session, every moment at which it is interrupted',
  UNIT + 'each starts from freshly initialised structures, so nothing can be left behind.',
  ['src/context.c', 'src/helpers/cmd_macros.h', STX + 'stx_handler.c', 'src/commands/attestinput/ainpt_handler.c', 'src/helpers/session_id.h'],
  [('clearing of the command context', 'src/context.c'), ('session identifier check', STX + 'stx_handler.c')], ['responses and screens of a session after a random history'], [('command context', 'shared by all commands', 'src/context.h')],
  tech=MODEL + '; differential run against a freshly started device', note=NOTE)
P('P11', 'Keys are only used under the permitted derivation paths',
  'The device derives keys only under the Ergo BIP44 prefix 44\'/429\': for exports, paths of at least three components, all hardened; for addresses, signing and change, at least five components with a hardened account, chain 0 or 1 and everything after it not hardened. Any other path, a path with a length byte outside 1 to 10 or longer than the data, or a network not permitted for signing is refused before any key is used; an address for a network byte above 252 is refused as well. Every permitted path that fits on the screen is accepted, and the key used is the one of exactly that path.',
  ['inputs', 'histories'], 'every path of every length, every network byte, in each command that takes one',
  UNIT + 'validation is sampled with a handful of paths, and not per command.',
  ['src/common/bip32_ext.c', 'src/common/bip32_ext.h', 'src/helpers/crypto.c', 'src/commands/extpubkey/epk_handler.c', 'src/commands/deriveaddress/da_handler.c', STX + 'operations/stx_op_p2pk.c', 'src/ergo/network_id.h'],
  [('path validation', 'src/common/bip32_ext.c'), ('handlers call it before deriving', 'src/commands')], ['every path handed to the key derivation of the platform', 'status words'], tech=MODEL + '; every key derivation watched at the SDK boundary', note=NOTE)
P('P12', 'Addresses given and shown belong to the requested path and network',
  'The address returned or displayed is the standard pay-to-public-key address of the public key at exactly the requested path for the requested network byte (0 to 252), with a correct checksum; the path on the screen is the requested one. In display mode the address is on the screen in full and the response is empty; in return mode it is in the response and not sent before approval, unless the application is known.',
  ['inputs', 'histories'], 'every valid path, every network, both modes, with and without token',
  UNIT + 'address encoding is tested for one or two keys; the command is not tested.',
  ['src/commands/deriveaddress/da_handler.c', 'src/commands/deriveaddress/da_ui.c', 'src/commands/deriveaddress/da_response.c', 'src/ergo/address.c'],
  [('address encoding', 'src/ergo/address.c'), ('address pages', 'src/commands/deriveaddress/da_ui.c')], ['response and pages of "Derive address"'], tech=MODEL, note=NOTE)
P('P13', 'The extended public key exported is the one of the requested path',
  'An export returns the compressed public key and the chain code of exactly the requested path, and nothing else. It is preceded by an approval that shows this path, unless the request carries the token of the application approved last. A rejected export returns no data.',
  ['inputs', 'histories'], 'every valid account path, with and without token, after any history',
  UNIT + 'no test calls the command.',
  ['src/commands/extpubkey/epk_handler.c', 'src/commands/extpubkey/epk_ui.c', 'src/commands/extpubkey/epk_response.c', 'src/helpers/crypto.c'],
  [('key generation', 'src/helpers/crypto.c'), ('prompt before response', 'src/commands/extpubkey/epk_ui.c')], ['response and pages of "Get the extended public key"'], tech=MODEL, note=NOTE)
P('P14', 'Only the application approved last may skip the question',
  'A request without a token, or with a token other than the one of the last approval, is always put to the user, and the prompt shows its token. Only an approval makes a token known - a rejection or an error never does - it replaces the previous one, and the zero token is never known. A known token never spares displaying an address, confirming outputs or confirming a signature, and errors and refusals carry no data.',
  ['histories', 'inputs'], 'every sequence of commands, tokens, approvals and rejections',
  UNIT + 'no test approves or rejects anything.',
  ['src/helpers/session_id.h', 'src/context.h', 'src/commands/extpubkey/epk_handler.c', 'src/commands/deriveaddress/da_handler.c', 'src/commands/attestinput/ainpt_handler.c', STX + 'stx_handler.c'],
  [('known-application test', 'src/helpers/session_id.h'), ('token stored by the approval', 'src/commands')], ['whether a prompt appears, and its pages'], [('known application', 'token of the last approval', 'src/context.h')], tech=MODEL, note=NOTE)
P('P15', 'Requests are dispatched, and refused, as documented',
  'A request is carried out only if class, instruction, parameters and length are as documented; otherwise it is refused with the status word that names the reason, without data and without any other effect on the session in progress for a malformed header. Version and name answer with the version and name the application was built with, in every state. The status words of all refusals are the documented ones.',
  ['inputs', 'histories'], 'every header, every length, every state',
  UNIT + 'the dispatcher is not part of any test.',
  ['src/apdu_dispatcher.c', 'src/sw.h', 'src/helpers/sw_result.h', 'src/helpers/cmd_macros.h', 'src/commands/app_version.c', 'src/commands/app_name.c'],
  [('dispatcher', 'src/apdu_dispatcher.c'), ('translation of results to status words', 'src/helpers/sw_result.h')], ['status words and data of all responses'], tech=MODEL + '; sweeps over all header bytes', note=NOTE)
P('P16', 'Exactly one answer to every request, and the device stays alive',
  'Every request is answered exactly once: at once, or, when it opened a prompt, at the decision of the user; nothing is ever sent unasked. While a prompt is open every request but version and name is refused as busy and the prompt stays as it was. No sequence of requests and button presses makes the application hang, end or stop answering.',
  ['histories', 'inputs', 'fault_sequences'], 'every interleaving of requests, button presses and failing platform calls',
  UNIT + 'there is no event loop in the tests.',
  ['src/app_main.c', 'src/apdu_dispatcher.c', 'src/helpers/response.h', 'src/ui/ui_dynamic_flow.c', 'src/ui/ui_bip32_path.c'],
  [('event loop and error translation', 'src/app_main.c'), ('busy flag', 'src/apdu_dispatcher.c')], ['the input/output boundary of the emulated platform'], tech='online response-count and liveness monitor over randomized interleavings of requests, buttons and faults', note=NOTE)
P('P17', 'No memory error and no undefined behaviour, whatever is sent',
  'No request, button press or failing platform call makes the application read or write outside its objects, use them after their life, overflow a signed integer, shift out of range, violate alignment or the contract of a platform function. This holds for requests of every length and content, in every state.',
  ['inputs', 'histories', 'fault_sequences'], 'all byte sequences as requests, all states, all single platform faults',
  UNIT + 'they are built without sanitizers and use well-formed data.',
  ['src'], [('bounded buffers', 'src/common/rwbuffer.h'), ('length checks of the handlers', 'src/commands')], ['AddressSanitizer and UndefinedBehaviorSanitizer reports, contract monitors of the emulated SDK'],
  tech='ASan and UBSan on the whole application under hostile, stress and fault workloads, plus contract monitors in the emulated SDK', note=NOTE + ' clang\'s instrumentation decides; only the executed paths count.')
P('P18', 'No decision and no output depends on uninitialised data',
  'Nothing that was never written is sent to the host, shown on the screen, hashed, handed to the platform, or used to decide anything. In particular no response ever carries bytes left over in memory.',
  ['inputs', 'histories', 'fault_sequences'], 'all requests, states and single platform faults',
  UNIT + 'they are built without any initialisation checker.',
  ['src'], [('initialisation of contexts at the start of each command', 'src/commands'), ('response builders', 'src/helpers/response.h')], ['MemorySanitizer, with checks of every buffer that leaves the application'],
  tech='MSan on the whole application, application memory poisoned at each command start, explicit checks at the SDK boundary', note=NOTE)
P('P19', 'Private keys and nonces are wiped from memory after use',
  'When the device waits for the next request or button, no private key, no product of a private key, no chain code that was not exported and no nonce of a finished or abandoned session is left readable in its memory, except the nonce of the signing session that is still in progress and the chain code whose export is being decided. Nor is any of these left in the abandoned part of the stack when a routine of the application returns or calls a platform service: what a routine keeps of a key is wiped before it returns. This holds after success, rejection, error and platform faults.',
  ['histories', 'fault_sequences', 'inputs'], 'every waiting point of every history, with and without faults',
  UNIT + 'no test looks at memory after a call, and the code that handles keys is not tested.',
  ['src/helpers/crypto.c', 'src/ergo/schnorr.c', STX + 'operations/stx_op_p2pk.c', 'src/context.c'],
  [('wiping after use', 'src/helpers/crypto.c'), ('wiping in the proof', 'src/ergo/schnorr.c'), ('clearing of the context', 'src/context.c')], ['memory image of the application (statics and abandoned stack) at every waiting point', 'the frame of every routine as it returns, and the abandoned stack at every call of a platform service'],
  tech='secrets recorded at the SDK boundary, memory scanned for them at every waiting point, in every frame that is left, and below the frame at every call of a platform service', note=NOTE + ' Built for the host at -O0 and -O2, not for the device compiler.')
P('P20', 'Nonces, session identifiers and the attestation key are fresh and unbiased',
  'Every signature uses a nonce of its own, drawn in that session from the platform\'s random generator, non-zero, below the group order and not reduced from a larger value - the first number drawn for it that is in that range, so that every nonce is as likely as any other; no two signatures share a commitment unless the generator repeats itself. Every new session gets a random identifier, never zero and never that of the session started before it. The attestation key is drawn freshly, all 16 bytes of it, at every start.',
  ['histories', 'inputs', 'fault_sequences'], 'every number of sessions, with random generators that return awkward values',
  UNIT + 'randomness is not exercised by any test.',
  ['src/ergo/schnorr.c', 'src/helpers/session_id.h', 'src/app_main.c', STX + 'stx_handler.c', 'src/commands/attestinput/ainpt_handler.c'],
  [('nonce generation', 'src/ergo/schnorr.c'), ('session identifiers', 'src/helpers/session_id.h'), ('attestation key', 'src/app_main.c')], ['draws from the random generator, commitments recovered from signatures, session identifiers'],
  tech='offline checks of recorded random draws against signatures, identifiers and frame tags, with scripted random generators', note=NOTE)
P('P21', 'A failing platform call fails closed',
  'If a call of the platform\'s cryptographic services fails during any command - a single one, several in a row, or all from some point on - the request is answered with an error and no data, or the outcome is the right one all the same; nothing wrong is ever signed, shown, attested or returned because of it. The device stays alive, and the next session works as if nothing had happened.',
  ['fault_sequences', 'histories'], 'each call of each command failing, alone, with the next one, or with all that follow',
  UNIT + 'the stand-ins they link never fail.',
  ['src/helpers/crypto.c', 'src/helpers/blake2b.c', 'src/ergo/schnorr.c', 'src/ergo/address.c', 'src/ergo/tx_ser_box.c', 'src/commands'],
  [('results of platform calls checked', 'src/helpers/crypto.c, src/ergo/schnorr.c')], ['responses and screens after an injected fault'], level='fault_enumeration',
  tech='enumeration: the n-th fallible platform call of eleven fixed sessions fails, for every n - alone, with its successor, with all that follow up to the answer, and with all that follow - plus random faults; outcome compared with the specification', note=NOTE)
P('P22', 'Every prompt can be browsed completely and left both ways',
  'In every prompt, browsing forward and backward goes through all its pages in a fixed cyclic order, each showing its content every time (a long text from its beginning, when it is reached forward); approval and rejection are both reachable from every page and do what they say; pressing both buttons on any other page decides nothing, except on the path page that opens a signing session, which it approves. After a decision or an error the home screen is back, and its menu works.',
  HIST, 'every prompt, every sequence of button presses',
  UNIT + 'no test has a screen.',
  ['src/ui/ui_dynamic_flow.c', 'src/ui/ui_approve_reject.c', 'src/ui/ui_menu.c', 'src/ui/ui_bip32_path.c', 'src/ui/ui_application_id.c', STX + 'stx_ui.c'],
  [('dynamic flow', 'src/ui/ui_dynamic_flow.c'), ('approve and reject pages', 'src/ui/ui_approve_reject.c')], ['the pages shown after each button press'], tech=MODEL + '; exhaustive and random walks over all prompts', note=NOTE)
NT = 'library functions compiled under ASan, UBSan and MSan, each call compared with an independent definition in a seeded harness'
NN = 'Bounded random exploration of the functions themselves, with boundary-biased values. Trusts the definitions written in native/.'
P('P23', 'Numbers are encoded canonically and decoded without loss',
  'Writing any 64, 32, 16 or 8 bit number, signed or unsigned, in the variable-length format gives the canonical encoding of the reference implementation, and reading it back gives the same number and consumes exactly its bytes. Reading truncated data, or a number too large for the type asked for, is reported as an error, never as a wrong number; writing into too little room is reported and never goes beyond it.',
  ['inputs'], 'every number of every type, every buffer size, every truncation', UNIT + 'about a dozen numbers per type are tried.',
  ['src/common/gve.c', 'src/common/gve.h', 'src/common/zigzag.h'], [('variable-length encoding', 'src/common/gve.c'), ('sign folding', 'src/common/zigzag.h')], ['results, bytes and positions'], tech=NT, note=NN)
P('P24', 'Buffers never read or write beyond their ends',
  'Any sequence of reads, writes, copies, seeks and shifts on a buffer behaves as on an ideal byte sequence of fixed capacity: what is read is what was written, in order, and an operation that does not fit fails and changes nothing. No operation touches memory outside the buffer.',
  ['inputs', 'histories'], 'every sequence of operations, every size including the extremes of the size type', UNIT + 'each operation is tried a few times in isolation.',
  ['src/common/rwbuffer.c', 'src/common/rwbuffer.h', 'src/common/buffer_ext.c', 'src/common/buffer_ext.h'], [('bounds checks', 'src/common/rwbuffer.c')], ['results, contents and positions'], tech=NT, note=NN + ' Moving the write position behind the read position is outside the contract and not exercised.')
P('P25', 'Key path rules decide exactly as specified',
  'A path is judged an account, an address or a standard address exactly according to its prefix, length, hardened components and chain; two paths are judged equal, or of the same account, exactly when the components in question are. The text of a path is complete and exact, or refused: never cut.',
  ['inputs'], 'every path of every length, compared with every other, every text size', UNIT + 'a few paths are tried.',
  ['src/common/bip32_ext.c', 'src/common/bip32_ext.h'], [('validation', 'src/common/bip32_ext.c'), ('comparison', 'src/common/bip32_ext.h')], ['results and text'], tech=NT, note=NN)
P('P26', 'Streaming serializers produce the canonical bytes or stop for good',
  'For every transaction and box, however it is cut into pieces, the bytes hashed are the canonical serialization, and every token and part is reported to its observer exactly once and in order. Pieces that are too many, too few, too large or out of order are refused with the error that names the reason, and after an error, a failing hash or a failing observer nothing more is accepted.',
  ['inputs', 'histories', 'fault_sequences'], 'every transaction, chunking, deviation and single failure of hash or observer', UNIT + 'one or two transactions are serialized in one fixed way.',
  ['src/ergo/tx_ser_full.c', 'src/ergo/tx_ser_box.c', 'src/ergo/tx_ser_input.c', 'src/ergo/tx_ser_table.c'], [('states of the serializers', 'src/ergo/tx_ser_full.c')], ['bytes reaching the hash, observer calls, results'], tech=NT + '; injected hash and observer failures', note=NN)
P('P27', 'Scripts are recognised, and addresses encoded, exactly',
  'A script is taken for a pay-to-public-key or pay-to-script-hash script exactly when every byte of its fixed part agrees, and the key or hash taken from it is the one in it. Addresses built from keys and hashes have the right type, network and checksum. The miners\' fee script and its lengths are the standard ones for each network.',
  ['inputs'], 'every script of the two lengths, every single-byte deviation, every network byte', UNIT + 'one script of each kind is tried.',
  ['src/ergo/ergo_tree.c', 'src/ergo/address.c', 'src/ergo/network_id.h'], [('script patterns', 'src/ergo/ergo_tree.c'), ('address encoding', 'src/ergo/address.c')], ['results and bytes'], tech=NT, note=NN)
P('P28', 'Checked arithmetic is exact or refuses',
  'Adding and subtracting amounts gives the exact mathematical result whenever it fits into the 64-bit result, and is refused, without touching the result, whenever it does not; this includes signed balances combined with unsigned amounts of any size.',
  ['inputs'], 'every pair of operands, in particular around the ends of the signed and unsigned ranges', UNIT + 'a few pairs are tried.',
  ['src/common/safeint.h'], [('overflow checks', 'src/common/safeint.h')], ['results'], tech=NT + ' against 128-bit arithmetic', note=NN)

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p, *_ in OUT: f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check ' + p['id'],
             evidence_file='evidence/%s.json' % p['id'], technique=tech, level=level, level_note=note) for p, level, tech, note in OUT], not_applicable=[],
             notes='No hooks in /repo: the application is observed at its SDK boundary, which emu/ implements. ./check ID --replay FILE runs a reported history again.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
main()
