from props.P03 import jobs


def run(c):
    c.build()
    q = c.quick
    c.replay(c.gen(jobs(c, "cli", 1 if q else 2, [(d, 60 if q else 1500) for d in (4, 8, 16)])), cmd="admin", timeout=300 if q else 3000)
    return c.finish(rule="histories of plugin commands of the registry specification, run with the program in a scratch home directory, some while nothing can be written: exit status, registry and every file after every command")
