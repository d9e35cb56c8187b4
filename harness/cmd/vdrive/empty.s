// lets sched.go declare functions without bodies
