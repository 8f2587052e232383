int mocc_main(int argc, char **argv);
extern "C" int sim_main(int, char **, int (*)(int, char **));
int main(int argc, char **argv)
{
    return sim_main(argc, argv, mocc_main);
}
