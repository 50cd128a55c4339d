import pool
def run(c): pool.run(c, 0)
