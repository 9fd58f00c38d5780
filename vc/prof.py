import cProfile, pstats, sys
sys.argv = sys.argv[1:]
sys.argv.insert(0, 'x')
cProfile.run(open('/verif/vc/try.py').read(), '/tmp/prof.out')
pstats.Stats('/tmp/prof.out').sort_stats('cumtime').print_stats(45)
