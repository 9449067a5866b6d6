#pragma once
/* ledger of the heap blocks that code of this executable (cgo wrappers, generated C, the library) obtains */
long v_live(void);        /* blocks held */
long v_total(void);       /* blocks ever obtained */
long v_bad(void);         /* double or foreign frees */
void v_mem_track(int on);
