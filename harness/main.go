package main

import (
	"flag"
	"fmt"
	"io"
	"os"

	"k8s.io/klog/v2"
)

var checks = map[string]func(c *Ctx){
	"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23,
	"C24": c24, "C25": c25, "C26": c26, "C27": checkC27, "C28": c28, "C29": c29, "C30": c30, "C31": c31, "C32": c32,
}

// children are parts of checks which run in a process of their own.
var children = map[string]func(arg string){"child-C12": c12child, "child-C13": c13child, "child-C19": c19child, "child-C31": c31child}

func main() {
	fs := flag.NewFlagSet("klog", flag.ContinueOnError)
	klog.InitFlags(fs)
	_ = fs.Parse([]string{"-logtostderr=false", "-stderrthreshold=FATAL"})
	klog.SetOutput(io.Discard)
	if len(os.Args) == 3 && children[os.Args[1]] != nil {
		children[os.Args[1]](os.Args[2])
		return
	}
	if len(os.Args) < 2 || checks[os.Args[1]] == nil {
		fmt.Println("usage: zz_verif <property>")
		os.Exit(3)
	}
	c := newCtx(os.Args[1])
	if len(os.Args) == 3 {
		c.crashed(os.Args[2])
	}
	running = c
	checks[os.Args[1]](c)
	c.finish()
}
