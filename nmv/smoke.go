package main

func init() {
	register("X00", "smoke", func(run *Run) {
		run.Stage("all", scale(2000, 40000), func(c *Case) {
			p := baseProf()
			p.PasserP, p.ReqMwP, p.MethMwP, p.RouterMwP = 0.2, 0.2, 0.2, 0.3
			p.RedirP, p.RedirAny, p.PermCodeP, p.RedirHP = 0.05, 0.4, 0.1, 0.1
			t := genTree(c.Rand, p)
			c.Logf("%s", t)
			b := build(c.Rand, t, c.P(0.2))
			for _, l := range b.Ops {
				c.Logf("%s", l)
			}
			rp := baseReq()
			rp.BadP, rp.FalseP, rp.ActP = 0.03, 0.05, 0.1
			for i := 0; i < 40; i++ {
				rq := genReq(c.Rand, t, rp)
				out := predict(t, rq)
				o := serve(b, b.Router, rq, t.AllNames())
				if d := first(diffPanic(o), diffSeq(out, o, "pqmPQMhr", true),
					diffStatus(out, o, false), diffAllow(out, o), diffLoc(out, o),
					diffOnce(out, o), diffSnaps(out, o, "pqmPQMhr", snAll)); d != "" {
					c.Logf("%s", rq)
					c.Logf("expected %s", out)
					c.Logf("observed %s", o)
					c.Fail("%s", d)
				}
				c.Count(out.Kind())
				c.Eval(out.Kind())
			}
		})
	})
}
