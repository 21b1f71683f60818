import threading

from scrappybara.utils.mutables import divide_list


class _Thread(threading.Thread):

    def __init__(self, thread_id, input_items, process):
        threading.Thread.__init__(self)
        self.__thread_id = thread_id
        self.__input_items = input_items
        self.__process = process
        self.output_items = []
        self.error = None  # Exception raised while processing the items

    def run(self):
        try:
            self.output_items = [self.__process(item) for item in self.__input_items]
        except BaseException as error:
            self.error = error


def run_multithreads(items, process, nb_threads):
    items_lists = divide_list(items, nb_threads)
    nb_threads = []
    output_items = []
    for idx, items_list in enumerate(items_lists):
        nb_threads.append(_Thread(idx, items_list, process))
        nb_threads[idx].start()
    for idx, _ in enumerate(items_lists):
        nb_threads[idx].join()
        output_items.extend(nb_threads[idx].output_items)
    for thread in nb_threads:
        if thread.error is not None:
            raise thread.error
    return output_items
