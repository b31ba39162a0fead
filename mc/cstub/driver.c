/* Reads cases, calls speedup.frame_stack() and writes the answers.
 * A case: N code[0..N-1] (innermost first) base_frame base_code
 *         ignored_frames (a digit for each frame) ignored_codes_mask
 * where base_frame is -1 for None, and N for a frame that's elsewhere. */
#include SPEEDUP_C

PyObject _Py_NoneStruct = {1, 0, 0, NULL};
static PyObject codes[8];
#define MAX 4096
static PyFrameObject frames[MAX];
static int code[MAX];
static char fm[MAX];

int main(void)
{
    struct PyModuleDef *mod = PyInit_speedup();
    PyCFunction f = NULL;
    PyMethodDef *m;
    int n, bf, bc, cm, i;
    for (m = mod->methods; m->ml_name; m++)
        if (!strcmp(m->ml_name, "frame_stack"))
            f = m->ml_meth;
    while (scanf("%d", &n) == 1) {
        PyObject *args = PyList_New(0);
        PyObject *fs = PyList_New(0), *cs = PyList_New(0), *out;
        fs->kind = cs->kind = 2;
        for (i = 0; i < n; i++)
            if (scanf("%d", &code[i]) != 1) return 2;
        if (scanf("%d %d %4000s %d", &bf, &bc, fm, &cm) != 4) return 2;
        for (i = 0; i <= n; i++) {
            frames[i].ob_base.ob_refcnt = 1;
            frames[i].f_code = &codes[i < n ? code[i] : 7];
            frames[i].f_back = i + 1 < n ? &frames[i + 1] : NULL;
            if (i < n && fm[i] == '1') PyList_Append(fs, (PyObject *)&frames[i]);
        }
        for (i = 0; i < 8; i++)
            if (cm >> i & 1) PyList_Append(cs, &codes[i]);
        PyList_Append(args, (PyObject *)&frames[0]);
        PyList_Append(args, bf < 0 ? Py_None : (PyObject *)&frames[bf]);
        PyList_Append(args, bc < 0 ? Py_None : &codes[bc]);
        PyList_Append(args, fs);
        PyList_Append(args, cs);
        out = f(NULL, args);
        if (!out) {
            printf("NULL\n");
            continue;
        }
        for (i = 0; i < out->size; i++)
            printf("%d ", (int)((PyFrameObject *)out->items[i] - frames));
        printf("\n");
        free(out->items); free(out);
        free(fs->items); free(fs); free(cs->items); free(cs);
        free(args->items); free(args);
    }
    return 0;
}
