package main

import (
	"fmt"
	"os"
)

// reopenedToOverwrite is the instance's drive and index, opened anew, the drive to be overwritten.
func reopenedToOverwrite(in *Inst) (*Inst, error) {
	in.Close()
	re, err := openInst(in.Cfg, in.Drive, in.DB, Opt{Tape: in.VT, Overwrite: true})
	if err != nil {
		return nil, err
	}
	re.Dir = in.Dir
	return re, nil
}

var overwriting = []Member{{Path: "/", Dir: true, Perm: 0o755}, {Path: "/b", Data: []byte("over")}, {Path: "/a", Dir: true, Perm: 0o755}, {Path: "/a/c", Data: pat(600, 9)}}

// overwritten is a populated filesystem the tape of which has been overwritten explicitly by the archive interface.
func overwritten(in *Inst) (*Inst, error) {
	for _, op := range append(append([]Op{}, popSetup...), opMkdir("/gone"), opPut("/b", big)) {
		if out := op.Do(in); out.Class != "ok" {
			return nil, fmt.Errorf("%s: %s", op.Name, out.Class)
		}
	}
	re, err := reopenedToOverwrite(in)
	if err != nil {
		return nil, err
	}
	if _, err := re.WriteOps.Archive(source(overwriting), re.Cfg.Level, true, false); err != nil {
		re.Close()
		return nil, err
	}
	return re, nil
}

// initialized is the same, overwritten by initializing as the command does.
func initialized(in *Inst) (*Inst, error) {
	for _, op := range append(append([]Op{}, popSetup...), opMkdir("/gone"), opPut("/b", big)) {
		if out := op.Do(in); out.Class != "ok" {
			return nil, fmt.Errorf("%s: %s", op.Name, out.Class)
		}
	}
	re, err := reopenedToOverwrite(in)
	if err != nil {
		return nil, err
	}
	if err := re.WriteOps.Initialize("/", os.ModePerm, re.Cfg.Level); err != nil {
		re.Close()
		return nil, err
	}
	return re, nil
}
