"""Writes MANIFEST.json."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
T = {
    'C01': 'online monitor: every signed transaction replayed through an independent strict Bitcoin verifier',
    'C02': 'online monitor: outputs and inputs of every created transaction compared with the request',
    'C03': 'online monitor: fee paid versus fee asked and the measured virtual size',
    'C04': 'online monitor: selection outcome versus independent feasibility bounds, over random draws',
    'C05': 'history monitor: every signing step attributed key by key and judged by an independent verifier',
    'C06': 'reference-model monitor over export/import round trips and corruptions',
    'C07': 'reference-model monitor of derived addresses and keys',
    'C08': 'reference-model monitor of address acceptance and scripts, hostile strings',
    'C09': 'network traffic monitor at the HTTP adapter plus output monitor, under fault injection',
    'C10': 'fault injection at the HTTP adapter with a ledger as oracle',
    'C11': 'fault injection on broadcasts; offline check of the request log against the accepted set',
    'C12': 'exact-rational reference monitor of conversions under provider faults',
    'C13': 'trace checker over histories on a virtual clock with fault injection',
    'C14': 'online monitor: data outputs parsed and reassembled',
    'C15': 'online monitor: sequence fields',
    'C16': 'differential monitor: cold versus direct signing, with a network silence monitor',
    'C17': 'reference-model monitor of parse/serialise round trips',
    'C18': 'reference-model monitor (RFC 6979, strict DER, independent ECDSA) with mutations',
    'C19': 'history monitor: wallets against a simulated ledger, conservation of value, fault injection',
    'C20': 'taint monitor: every outgoing byte, log record, repr and exception searched for secrets',
    'C21': 'history and traffic monitor against a simulated node with faults',
    'C22': 'reference-model monitor of generator output under real worker processes',
    'C23': 'history monitor: field-by-field comparison around every signing step plus independent verifier',
    'C24': 'monitor of the timeout of every request at the HTTP adapter, under fault injection',
    'C25': 'schedule fuzzing (random yields at library lines, delayed answers) with sequential runs as oracle',
    'C26': 'history monitor: field-by-field photographs around every request, fresh runs as oracle',
    'C27': 'reference-model monitor: equality against content, single-part mutations',
    'C28': 'fault injection at every request of an operation, attributes compared before/after and with the ledger',
    'C29': 'monitor of scheme, host, verification and credentials of every request at the HTTP adapter, under fault injection',
    'C30': 'audit-hook, HTTP and interpreter-settings monitor around every call',
    'C31': 'differential monitor: results of the same requests in processes with different interpreter settings',
    'C32': 'interrupt injection at library lines and network answers, later results compared with an undisturbed run and the ledger',
    'C33': 'fuzzing of real inputs under an acceptance oracle (independent parser), a budget of executed lines and a memory limit',
    'C34': 'differential monitoring: every request on both networks\' classes over mirrored ledgers, results compared',
    'C35': 'metamorphic monitoring: the same request reworded, transactions compared byte for byte',
}
NA = []


def main():
    checks = []
    for p, tech in T.items():
        m = importlib.import_module('checks.' + p.lower())
        note = ('Held on the executions counted in the evidence file: %s. Not a proof; says nothing about paths the workload '
                'does not drive.' % m.RULE)
        a = getattr(m, 'ASSUMPTIONS', [])
        if a:
            note += ' Assumes: ' + '; '.join(a) + '.'
        checks.append({'property': p, 'quick_cmd': '/opt/venv/bin/python run.py ' + p,
                       'thorough_cmd': '/opt/venv/bin/python run.py %s --thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
                       'technique': 'runtime monitoring: ' + tech, 'level': m.LEVEL, 'level_note': note})
    d = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "from vlib import ref; ref.selftest()"', 'checks': checks,
         'not_applicable': NA,
         'notes': 'No hooks in /repo: the monitors sit at the public API and at requests.adapters.HTTPAdapter.send. The library is '
                  'imported from /repo in every run, so nothing is built.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')


main()
