#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {
 'C01': "monitored runs: an independent COFF linker and resource directory reader decodes every object written for generated sets and histories",
 'C03': "monitored runs: a strict directory reader with a Windows-like binary search decodes every object and executable written",
 'C04': "monitored runs: outputs after random operation histories compared with those of a directly built set",
 'C05': "monitored operation histories (random and exhaustive short ones) against a map model",
 'C06': "monitored patch chains over generated and real PE images, outputs decoded by an independent loader",
 'C07': "monitored patch chains, a preservation checker compares source and output sections, directories, overlays, symbols",
 'C08': "monitored patch chains, every output goes through an independent PE structure checker",
 'C09': "monitored patches, checksum recomputed independently over each output, through streams of all kinds",
 'C10': "monitored patches and queries of signed images, certificate bytes followed from source to output",
 'C11': "mutation-driven stress with panic, hang, allocation and output monitors around every call",
 'C13': "mutation-driven stress of ICO and CUR files, groups, images and constructors with panic, allocation and refusal monitors",
 'C17': "monitored ICO round trips through saving, sets, objects and executables, read back by an independent parser",
 'C18': "monitored CUR round trips through saving, sets, objects and executables, read back by an independent parser",
 'C19': "monitored constructions, entries decoded and compared pixel by pixel with the source images",
 'C20': "monitored constructions, DIB entries decoded by an independent reader and compared pixel by pixel with the source images",
 'C21': "monitored icon and cursor histories, all groups and images compared around each operation",
 'C22': "monitored round trips of generated version information, compared field by field",
 'C23': "monitored loads of structures written by an independent VS_VERSIONINFO writer, in every tolerated layout",
 'C24': "monitored encodings read by a strict independent VS_VERSIONINFO reader",
 'C25': "monitored set, merge, split and lookup histories against a model",
 'C31': "monitored resizings of pictures known at every place, all output pixels compared with the picture",
 'C14': "mutation-driven stress of version, JSON and XML readers with panic, hang, allocation and write-back monitors",
 'C26': "monitored manifest writing, every document parsed by expat and compared with the facts of the description",
 'C27': "monitored JSON round trips and spellings, compared field by field, spoiled ones must be refused",
 'C28': "monitored reads of generated foreign manifests, compared with the settings they express, truncated ones must be refused",
 'C12': "monitored loads of generated foreign resource layouts and of real executables against the generating model",
 'C02': "monitored runs: objects read by an independent COFF reader, debug/pe and llvm-readobj, and linked by lld and Go with the result loaded back",
 'C15': "fault injection at every stream operation of recorded runs, in many modes, with an oracle over errors and what was written",
 'C16': "monitored runs through hostile but conforming streams, all outputs compared with that of plain memory buffers",
 'C29': "race detector over concurrent random scripts with shared inputs and yielding streams, results compared with sequential runs",
 'C30': "monitored operation histories in a world of guarded inputs and objects, all digests compared around each operation",
}
NOT = {}
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for id in props:
    if id not in T: continue
    checks.append(dict(property=id, quick_cmd=f"bash check.sh {id} quick", thorough_cmd=f"bash check.sh {id} thorough",
        evidence_file=f"evidence/{id}.json", technique=T[id], level="exploration",
        level_note="Every run of the real code is judged by an independent oracle; reach comes from generated, hostile and real workloads, bounded by the number of cases and their sizes (see evidence)."))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
    not_applicable=[dict(property=i, reason=NOT.get(i, "The monitor for this property is not built yet.")) for i in props if i not in T],
    notes="No hooks: monitors drive and observe the public API only; nothing in /repo is instrumented by hand. check.sh builds the monitors with /repo's working tree each time.")
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
