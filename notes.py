DEFAULT="Seeded search over schedules and faults; no exhaustiveness. Trusts the instruction emulators and the reference model; the compiled code of /repo is real."
NOTE={}
