#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the tables here.
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(D, 'properties.jsonl'))]
claimed = open(os.path.join(D, 'tools', 'claimed.txt')).read().split()
tech = "deterministic simulation with fault injection: seeded search over schedules, histories, crash points and I/O faults"
oracle = {
 'C01': 'crash/power-loss at sampled scheduler steps and I/O events of blocks and reopens; reopened state compared with a map model, old roots and the chain',
 'C02': 'two simulated executions of the same block history in different schedules, CPU counts, file geometries, restarts and prunes; roots compared after every block, and with roots seen before crashes',
 'C03': 'reference map model; point reads, full scan and count after every block',
 'C04': 'reference model of links and heights; the chain is walked after every block',
 'C05': 'independent proof checker written from the hash rules, against the database root',
 'C06': 'tampered proofs, absent keys, overwritten entries and old roots must all be refused, by the library and by the independent checker',
 'C07': 'damaged copies of the closed database: flipped bytes, cut, emptied and lost files',
 'C08': 'I/O errors, full disk, short operations at sampled events; success after a failed write or sync is a violation; reopened state compared with the model',
 'C09': 'version model; historical reads at random and boundary heights',
 'C10': 'crashes and faults inside and around prunes; model, roots, proofs, chain',
 'C11': 'compaction pressure; model and chain, and progress of the oldest twig per block',
 'C12': 'readers against write-back under the seeded scheduler, each compared with one committed block; race detector runs under the simulated schedules',
 'C13': 'nested map model of transactions and blocks; short-hash collisions through a masked hash',
 'C14': 'many client threads under the seeded scheduler (random, PCT, starvation); result compared with the model; step bound for progress; race detector runs under the simulated schedules',
 'C15': 'the segmented log alone: appends, flushes, parallel readers, crash, prune, truncation, against a byte-array model',
 'C16': 'the index alone: parallel sets and deletes, iteration over ranges, rebuilding, against a sorted map',
 'C17': 'a data tree alone: live tree against trees rebuilt by scanning and from snapshots, also damaged snapshots',
 'C18': 'metadata store and key-value store alone: threads, batches, crashes, iteration, compaction, against a model',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                       'technique': tech, 'level': 'exploration',
                       'level_note': oracle[i] + '. Sampled, not exhaustive; RocksDB and the disk are models.'})
    else:
        na.append({'property': i, 'reason': 'check under construction'})
m = {'version': 1, 'setup_cmd': 'bash ds/build.sh .build/setup && rm -rf "$PWD/.build/setup"', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(D, 'MANIFEST.json'), 'a').write('\n')
