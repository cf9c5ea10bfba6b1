"""Writes /verif/known_findings.json (committed; checks only read it)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ('P01', 'record calls and samples of a function first seen as an absent frame', 'calls of a function first seen as an already active caller were never counted'),
 ('P02', 'do not charge bookkeeping at a return to the caller', "the profiler's bookkeeping at a return was charged to the callers"),
 ('P01', 'do not record ignored frames under a wrong caller', 'calls of ignored frames were recorded, under a wrong caller'),
 ('P24', 'dump and view the wrapped profiler through a ProfilerWrapper', 'dump() and make_viewer() of a wrapper used the wrapper instead of the profiler'),
 ('P09', 'sort statistics without a name or module', 'sorting entries with and without a name or module raised TypeError'),
 ('P09', 'invert sort keys which are not numbers', 'inverting a ranking by name or by several figures raised TypeError'),
 ('P10', 'a failed start leaves the runnable stopped', 'after a failed start the runnable was taken as running'),
 ('P10', 'starting a running profiler does not discard what it recorded', 'a refused start discarded the running statistics'),
 ('P11', 'call every deferred function even if one of them fails', 'a failing clean-up call kept the other hooks installed'),
 ('P12', 'CPU time after a refused start is not negative', 'after a refused start the reported CPU time was negative'),
 ('P13', 'resuming a running context does not lose its time', 'resuming a running context discarded the time since its last resume'),
 ('P13', 'charge the running greenlet from the start of the greenlet timer', 'a greenlet left paused by the last run was not charged in the next one'),
 ('P14', 'forget dead threads instead of living ones', 'housekeeping forgot the living threads and kept the dead ones'),
 ('P14', 'sample a thread which has got the id of a dead thread', 'a new thread with the id of an ended one was not sampled for as long as that one had run'),
 ('P16', 'do not start a profiling loop while another one is running', 'a client that connected after a start had failed, or while the last round was sent, got a second profiling loop'),
 ('P17', 'a client which fails does not stop the server or the others', 'a failed greeting or an unexpected error number stopped the server or left the other clients without the result'),
 ('P17', 'greet a client before it takes part in broadcasting', 'under gevent a client could receive a result in the middle of its greeting'),
 ('P22', 'a client whose connection is broken does not stop the select server', 'a connection reset stopped the select server'),
 ('P18', 'try to reconnect when nobody listens to the socket', 'a refused connection to a socket file raised ValueError in the viewer and the socket of a failed connection was not closed'),
 ('P19', 'show the time of the result in the viewer', 'the time of day of a result was never shown'),
 ('P20', 'do not fold the whole table away', 'pressing left at a top-level function without callees folded every row away'),
 ('P21', 'carry to the next unit of time when rounding', 'times just below a unit were shown as 1000us, 1000ms, 60.0sec or 1m60s'),
 ('P16', 'make the asyncio server work on Python 3.7 or later', 'the asyncio server could not be imported or run'),
 ('P15', 'receive the whole message when it arrives in pieces', 'a message that arrived in pieces was cut'),
]
FIXED += [
 ('P25', 'the interval option in the configuration may be a fraction', 'an interval like 0.5 in the configuration file was refused'),
 ('P23', 'save the result in the requested file even if the program changes directory', 'a program that changed directory got its result saved elsewhere'),
 ('P24', 'a profiler which fails to start in background does not disturb the program', 'a failing start raised into the profiled program and left the requesting thread waiting for ever'),
 ('P05', 'report failures in the C accelerator', 'a failing set lookup was taken for an ignored frame, a failing append leaked the list, None as a frame was dereferenced'),
]
FIXED += [
 ('P31', 'profile statements of several lines by timeit-profile', 'of a statement of several lines only the first line was repeated, and compound statements were refused'),
 ('P31', 'don\'t hide the variable _ of the setup from a timed statement', 'a timed statement saw a number instead of the _ its set-up had defined'),
 ('P01', 'don\'t mix up equal functions of different files', 'functions with equal code at the same line of two files were recorded as one of them (P03 as well)'),
]
FINDINGS = []
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], universal_newlines=True)
by = {l.split(' ', 1)[1]: l.split(' ', 1)[0] for l in log.splitlines()}
fixed = ['fixed: property=%s %s %s' % (p, by['fix: ' + c], w) for p, c, w in FIXED]
left = [c for c in by if c.startswith('fix: ') and c[5:] not in [x[1] for x in FIXED]]
assert not left, left
json.dump(dict(findings=FINDINGS, fixed=fixed), open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
