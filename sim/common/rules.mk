# common rules; a simulator's Makefile sets NAME, LIBT (ninja targets), LIBS
# (archives, in order), CSRC and CXXSRC, and includes this.
O := $(B)/$(NAME)
CFLAGS := -g1 -O1 -w -fsanitize=address -fno-omit-frame-pointer -I$(REPO) -I$(B)/lib -D_GNU_SOURCE -DFILE_BASENAME=\"$(notdir $<)\" $(XCFLAGS)
CXXFLAGS := -std=c++17 -g1 -O1 -w -fsanitize=address -fno-omit-frame-pointer -I$(V)/sim
WRAPS := access open open64 close read write fopen fopen64 fileno fsync fdatasync ftruncate lseek \
	fstat fstat64 stat stat64 lstat lstat64 mkdir rmdir unlink remove rename link symlink readlink \
	chmod utime flock opendir readdir readdir64 closedir gethostname time malloc calloc realloc free $(XWRAPS)
WRAPF := $(foreach w,$(WRAPS),-Wl,--wrap=$(w))
COMMON := core.cc vfs.cc mem.cc $(COMMONX)
OBJS := $(CSRC:%.c=$(O)/%.c.o) $(CXXSRC:%.cc=$(O)/%.cc.o) $(COMMON:%.cc=$(O)/common/%.cc.o) $(CCOMMON:%.c=$(O)/common/%.c.o)
HDRS := $(wildcard $(V)/sim/common/*.h) $(wildcard $(V)/sim/$(NAME)/*.h)

all: $(B)/sim_$(NAME)

$(B)/libs.$(NAME): FORCE
	@ninja -C $(B)/lib $(LIBT) > $(B)/ninja.$(NAME).log 2>&1 || { tail -50 $(B)/ninja.$(NAME).log; false; }
	@touch $@
# (C files include the repository's headers and sources: always rebuilt)
$(O)/%.c.o: $(V)/sim/$(NAME)/%.c $(HDRS) FORCE | $(B)/libs.$(NAME)
	@mkdir -p $(dir $@)
	gcc $(CFLAGS) -c -o $@ $<
	$(if $(KEEP_$*),objcopy $(KEEP_$*:%=-G %) $@)
$(O)/%.cc.o: $(V)/sim/$(NAME)/%.cc $(HDRS)
	@mkdir -p $(dir $@)
	g++ $(CXXFLAGS) -c -o $@ $<
$(O)/common/%.cc.o: $(V)/sim/common/%.cc $(HDRS)
	@mkdir -p $(dir $@)
	g++ $(CXXFLAGS) -c -o $@ $<
$(O)/common/%.c.o: $(V)/sim/common/%.c $(HDRS) | $(B)/libs.$(NAME)
	@mkdir -p $(dir $@)
	gcc $(CFLAGS) -c -o $@ $<
$(B)/sim_$(NAME): $(OBJS) $(B)/libs.$(NAME)
	g++ -fsanitize=address $(WRAPF) -o $@ $(OBJS) -Wl,--start-group $(LIBS:%=$(B)/lib/%) -Wl,--end-group $(SYSLIBS)
FORCE:
.PHONY: all FORCE
