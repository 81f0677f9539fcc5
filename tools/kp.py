#!/usr/bin/env python3
"""development: where does the symbolic execution of one harness go   kp.py PACKAGE HARNESS SECONDS"""
import os, re, subprocess, sys, time, signal, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
import kani
kani.generate()
p = subprocess.Popen(["cargo", "kani"] + [f for f in kani.FLAGS if 'terse' not in f] + ["--output-format=regular" if 0 else "--output-format=old", "-p", sys.argv[1], "--harness", sys.argv[2]],
                     cwd=kani.W, env=kani.env(), stdout=open("/tmp/kp.out", "wb"), stderr=subprocess.STDOUT, start_new_session=True)
try: p.wait(float(sys.argv[3]))
except subprocess.TimeoutExpired: os.killpg(p.pid, signal.SIGKILL)
n = collections.Counter(); last = []
for l in open("/tmp/kp.out", errors="replace"):
    m = re.match(r"(Not u|U)nwinding loop (\S+) iteration (\d+)", l)
    if m: n[m.group(2)] += 1; last.append(l[:200])
    elif re.search(r"Runtime|size of program|VCC|variables", l): print(l.strip()[:150])
for k, v in n.most_common(25): print(v, subprocess.run(["rustfilt"], input=k.encode(), stdout=subprocess.PIPE).stdout.decode()[:160] if 0 else k[:230])
